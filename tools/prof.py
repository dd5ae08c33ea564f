"""debug: seconds per case kind; run through run.sh's environment"""
import sys, time, collections
sys.path.insert(0, '/verif')
from mc import core
pid, key, n = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
m = core.load(pid)
cs = m.CASES('quick')
acc, cnt = collections.Counter(), collections.Counter()
for c in cs[::n]:
    t = time.time()
    ctx = core.Ctx()
    core.run_case(m, c, 0, ctx)
    k = tuple(str(c.get(x)) for x in key)
    acc[k] += time.time() - t
    cnt[k] += 1
for k, v in acc.most_common(25):
    print('%8.2f s %5d  %s' % (v, cnt[k], k))
print(sum(acc.values()))
