"""Plant a bug: python3 tools/seed.py SPEC.py [--no-check]

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new), ...], demo=<python source>, needs, breaks)].
Each is applied in a scratch copy of /repo, confirmed (applies, builds, stable tests pass, demo 0 before / nonzero after),
stored under seeded/<id>/ and tried against the property's quick check (REPO=<copy>)."""
import json, os, shutil, subprocess, sys, tempfile

SRC = os.environ.get('SRC', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\n# 0 on a correct tree, nonzero when the property is broken\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(path, check=True, only=None):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        wt = tempfile.mkdtemp(prefix='seed-')
        try:
            sh('cp -a %s/. %s' % (SRC, wt))
            bad = None
            for e in s['edits']:
                f, old, new = e[0], e[-2], e[-1]
                p = os.path.join(wt, f)
                t = open(p).read()
                if len(e) == 4:  # (file, line, fragment, replacement)
                    ls = t.split('\n')
                    l = ls[e[1] - 1]
                    if l.count(old) != 1:
                        bad = 'line %d: %r' % (e[1], l)
                        break
                    ls[e[1] - 1] = l.replace(old, new)
                    open(p, 'w').write('\n'.join(ls))
                    continue
                if t.count(old) != 1:
                    bad = 'edit matches %d times: %r' % (t.count(old), old)
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                print(s['id'], 'REJECTED', bad)
                continue
            d = sh('git -C %s diff' % wt).stdout
            base = sh('git -C %s rev-list --max-parents=0 HEAD' % wt).stdout.strip()
            ours = [l[1:] for f in {e[0] for e in s['edits']} for l in sh('git -C %s diff -- %s' % (wt, f)).stdout.split('\n')
                    if l.startswith('-') and not l.startswith('---') and l[1:] not in sh('git -C %s show %s:%s' % (wt, base, f)).stdout.split('\n')]
            if ours:
                print(s['id'], 'REJECTED: not original lines', ours)
                continue
            dst = os.path.join(VERIF, 'seeded', s['id'])
            os.makedirs(dst, exist_ok=True)
            demo = s['demo']
            open(dst + '/patch.diff', 'w').write(d)
            open(dst + '/demo.py', 'w').write(demo)
            open(dst + '/demo.sh', 'w').write(DEMO)
            os.chmod(dst + '/demo.sh', 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(dst + '/meta.json', 'w'), indent=1)
            a = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python %s/demo.py' % (SRC, dst))
            b = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python %s/demo.py' % (wt, dst))
            t = sh('cd %s && LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 timeout 300 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --ignore=tests/pytracer/test_render.py tests 2>&1 | tail -2' % (wt, wt))
            ok = a.returncode == 0 and b.returncode != 0 and '6836 passed' in t.stdout and 'failed' not in t.stdout
            c = ''
            if ok and check:
                r = sh('cd %s && REPO=%s MC_JOBS=4 ./run.sh %s quick' % (VERIF, wt, s['property']))
                c = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % s['property'] in r.stdout else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-300:])
            print(s['id'], s['property'], 'ok' if ok else 'BAD demo-clean=%d demo-bug=%d tests=%s\n%s\n%s' % (a.returncode, b.returncode, t.stdout, a.stdout[-600:], b.stdout[-300:]), c, flush=True)
            if not ok:
                shutil.rmtree(dst)
        finally:
            shutil.rmtree(wt)


if __name__ == '__main__':
    main(sys.argv[1], '--no-check' not in sys.argv, [a for a in sys.argv[2:] if not a.startswith('--')])
