#!/bin/bash
# tools/fx.sh PROP "fix: message" "what failed": commit /repo's change and record the repaired defect
git -C /repo commit -qam "$2" || exit 1
h=$(git -C /repo rev-parse --short=10 HEAD)
python3 - "$1" "$h" "$3" <<'P'
import json,os,sys
f='/verif/known_findings.json'
a=json.load(open(f)) if os.path.exists(f) else []
a.append(dict(property=sys.argv[1],status='fixed',commit=sys.argv[2],line='fixed: property=%s %s %s'%tuple(sys.argv[1:4])))
json.dump(a,open(f,'w'),indent=1)
P
echo "$h $2"
