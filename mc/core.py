"""Bounded-exhaustive explorer shared by every check.

A check module (checks/<ID>.py) defines

    CASES(tier)      -> list of JSON-able cases, simplest first (the enumerated space, or its shards)
    RUN(case, ctx)   -> drives the *real* pytracer code through one case and compares every step with
                        a boring reference model; reports through ctx
    RULE             -> one sentence: how the space is made and what makes a case non-trivial

ctx counts model states, transitions (calls on the real code compared with the model) and traces.
Every violation becomes a replayable JSON artefact.
"""
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 240        # seconds for one case: past it, "does not terminate"
WALL_LIMIT = 840        # seconds for one check
AFTER_ALARM = 20        # seconds from the first violation to the report
SOFT_LIMIT = int(os.environ.get('MC_SOFT_LIMIT', '590'))
T_STOP = 0


class CaseTimeout(Exception):
    pass


class StopCase(Exception):
    """Raised by ctx.require to abandon a case after a reported violation."""


def hkey(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Ctx(object):
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.outcomes = {}
        self.violations = []
        self.persig = {}
        self.samples = []
        self.case = None
        self.index = 0
        self.nsamp = 0

    # --- counting
    def state(self, *key):
        self.states.add(hkey(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def skip(self, n=1):
        """An input the oracle cannot decide (within rounding of a boundary)."""
        self.skipped += n

    def outcome(self, key):
        key = str(key)
        if key in self.outcomes or len(self.outcomes) < 400:
            self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def sample(self, obj):
        self.nsamp += 1
        if len(self.samples) < 2:
            self.samples.append(obj)

    # --- verdicts
    def fail(self, sig, msg, **detail):
        n = self.persig.get(sig, 0)
        self.persig[sig] = n + 1
        if n < 3 and len(self.violations) < 300:
            self.violations.append(dict(index=self.index, case=self.case, sig=sig, msg=str(msg)[:2000],
                                        detail={k: repr(v)[:400] for k, v in detail.items()}))

    def check(self, cond, sig, msg='', **detail):
        self.transitions += 1
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def require(self, cond, sig, msg='', **detail):
        if not self.check(cond, sig, msg, **detail):
            raise StopCase()

    def close(self, got, want, sig, msg='', tol=1e-6, **detail):
        """|got-want| <= tol*(1+|want|) componentwise; nan/inf must match exactly."""
        self.transitions += 1
        ok = isclose(got, want, tol)
        if not ok:
            self.fail(sig, '%s: got %r, want %r' % (msg, short(got), short(want)), **detail)
        return ok


def short(x):
    try:
        return [float(v) for v in x]
    except Exception:
        try:
            return float(x)
        except Exception:
            return x


def isclose(got, want, tol=1e-6):
    try:
        g = [float(v) for v in got]
    except TypeError:
        g = None
    try:
        w = [float(v) for v in want]
    except TypeError:
        w = None
    if (g is None) != (w is None):
        return False
    if g is None:
        g, w = [float(got)], [float(want)]
    if len(g) != len(w):
        return False
    for a, b in zip(g, w):
        if a != a or b != b:
            return False
        if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
            if a != b:
                return False
            continue
        if abs(a - b) > tol * (1. + abs(b)):
            return False
    return True


def run_case(mod, case, index, ctx):
    ctx.case, ctx.index = case, index

    def onalarm(sig, frm):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_LIMIT)
    try:
        mod.RUN(case, ctx)
    except StopCase:
        pass
    except CaseTimeout:
        ctx.fail('no-termination', 'case did not finish within %d s' % CASE_LIMIT)
    except MemoryError:
        ctx.fail('memory', 'out of memory')
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inner = [f for f in tb if '/pytracer/' in f.filename.replace('\\', '/')]
        where = '%s:%s' % (inner[-1].filename.split('/pytracer/')[-1], inner[-1].name) if inner else 'harness'
        ctx.fail('exception:%s@%s' % (type(e).__name__, where), traceback.format_exc()[-1800:])
    finally:
        signal.alarm(0)


def load(pid):
    """Import the check module (which imports pytracer from /repo)."""
    return importlib.import_module('checks.' + pid)


def spread(cases, chunk):
    """the order in which cases are taken: kinds of case interleaved, so that a run cut short has met all of them"""
    groups = {}
    for i in range(0, len(cases), chunk):
        c = cases[i]
        kind = (c.get('k') or c.get('kind')) if isinstance(c, dict) else None
        groups.setdefault(repr(kind), []).append(i)
    at = [((j + .5) / len(g), i) for g in groups.values() for j, i in enumerate(g)]
    return [i for _, i in sorted(at)]


def worker(mod, cases, counter, k, outdir, known=(), alarm=None):
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(dn, 2)
    ctx = Ctx()
    prog = open(os.path.join(outdir, 'prog%d' % k), 'w')
    chunk = getattr(mod, 'CHUNK', 1)
    n = len(cases)
    order = spread(cases, chunk)
    done = seen = 0
    while time.time() < T_STOP:
        with counter.get_lock():
            turn = counter.value
            counter.value = turn + 1
        if turn >= len(order) or n == 0:
            break
        if alarm is not None:
            if len(ctx.violations) > seen:
                if not alarm.value and any(not any(matches(e, v) for e in known) for v in ctx.violations[seen:]):
                    alarm.value = time.time()
                seen = len(ctx.violations)
            # a violation is shown: look a little further for others of its kind, then report
            if alarm.value and time.time() > alarm.value + AFTER_ALARM:
                break
        i0 = order[turn]
        for i in range(i0, min(n, i0 + chunk)):
            prog.seek(0)
            prog.write('%d      \n' % i)
            prog.flush()
            run_case(mod, cases[i], i, ctx)
            done += 1
            if any(v['sig'] == 'no-termination' for v in ctx.violations[-1:]):
                n = 0
                break
    res = dict(done=done, states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, skipped=ctx.skipped,
               outcomes=ctx.outcomes, violations=ctx.violations, samples=ctx.samples, nsamp=ctx.nsamp)
    with open(os.path.join(outdir, 'res%d' % k), 'wb') as f:
        pickle.dump(res, f)


def explore(mod, cases, nproc, known=()):
    global T_STOP
    T_STOP = time.time() + SOFT_LIMIT
    import multiprocessing
    counter = multiprocessing.Value('i', 0)
    alarm = multiprocessing.Value('d', 0.)
    outdir = tempfile.mkdtemp(prefix='mc.')
    t0 = time.time()
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(nproc):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(mod, cases, counter, k, outdir, known, alarm)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = k
    extra = []
    live = dict(pids)
    while live:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() - t0 > WALL_LIMIT:
                for p, k in live.items():
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    extra.append((k, 'no-termination', 'worker exceeded the wall limit'))
                break
            time.sleep(0.02)
            continue
        if pid in live:
            k = live.pop(pid)
            if st != 0:
                extra.append((k, 'worker-died', 'worker ended with status %d (crash, or memory exhausted)' % st))
    tot = dict(states=set(), transitions=0, traces=0, skipped=0, outcomes={}, violations=[], samples=[], nsamp=0, done=0)
    for k in range(nproc):
        fn = os.path.join(outdir, 'res%d' % k)
        if os.path.exists(fn):
            with open(fn, 'rb') as f:
                r = pickle.load(f)
            tot['states'] |= r['states']
            for key in ('transitions', 'traces', 'skipped', 'nsamp', 'done'):
                tot[key] += r[key]
            for o, c in r['outcomes'].items():
                tot['outcomes'][o] = tot['outcomes'].get(o, 0) + c
            tot['violations'] += r['violations']
            tot['samples'] += r['samples']
    for k, sig, msg in extra:
        i = 0
        try:
            i = int(open(os.path.join(outdir, 'prog%d' % k)).read().split()[0])
        except Exception:
            pass
        tot['violations'].append(dict(index=i, case=cases[i] if cases else None, sig=sig, msg=msg, detail={}))
    for fn in os.listdir(outdir):
        os.unlink(os.path.join(outdir, fn))
    os.rmdir(outdir)
    tot['violations'].sort(key=lambda v: (v['index'], v['sig']))
    return tot


def known_findings(pid):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [e for e in json.load(open(fn)) if e.get('property') == pid and e.get('status') == 'known']


def matches(entry, v):
    m = entry['match']
    if v['sig'] != m.get('sig'):
        return False
    for k, want in m.get('case', {}).items():
        c = v['case']
        if not isinstance(c, dict) or k not in c:
            return False
        if (c[k] not in want) if isinstance(want, list) and m.get('any') else (c[k] != want):
            return False
    if 'msg' in m and m['msg'] not in v['msg']:
        return False
    return True


def write_replay(pid, v):
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, '%s-%s.json' % (pid, hashlib.md5((v['sig'] + json.dumps(v['case'])).encode()).hexdigest()[:8]))
    with open(fn, 'w') as f:
        json.dump(dict(property=pid, replay='./run.sh %s replay %s' % (pid, os.path.relpath(fn, VERIF)), **v), f, indent=1)
    return fn


def finish(pid, meta, tier, seed, t0, tot, ncases, rule, assumptions):
    ks = known_findings(pid)
    hit, new = {}, []
    for v in tot['violations']:
        for e in ks:
            if matches(e, v):
                hit.setdefault(e['id'], (e, v))
                break
        else:
            new.append(v)
    ev = dict(property=pid, tier=tier, seed=seed, level=meta['level'],
              coverage=dict(exhaustive=tot['done'] == ncases, rule=rule, cases=ncases, cases_finished=tot['done'], evaluations=tot['transitions'],
                            distinct_nontrivial=len(tot['states']),
                            undecided_by_oracle=tot['skipped'], distinct_outcomes=len(tot['outcomes']),
                            outcomes=dict(sorted(tot['outcomes'].items(), key=lambda kv: -kv[1])[:12]),
                            samples=tot['samples'][:6] or ['(none)']),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    if meta['level'] == 'model_checking':
        c = ev['coverage']
        del c['evaluations'], c['distinct_nontrivial']
        c.update(states=len(tot['states']), transitions=tot['transitions'],
                 traces_validated_against_impl=tot['traces'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for e, v in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    print('%s %s: cases=%d states=%d transitions=%d traces=%d undecided=%d outcomes=%d violations=%d wall=%.1fs' % (
        pid, tier, ncases, len(tot['states']), tot['transitions'], tot['traces'], tot['skipped'],
        len(tot['outcomes']), len(new), time.time() - t0))
    if tot['done'] < ncases and not new:
        print('%s: time limit reached after %d of %d cases; the rest is not covered' % (pid, tot['done'], ncases))
    if new:
        seen = set()
        for v in new:
            if v['sig'] in seen:
                continue
            seen.add(v['sig'])
            fn = write_replay(pid, v)
            if len(seen) <= 8:
                print('VIOLATION property=%s replay=%s' % (pid, fn))
                print('  [%s] %s' % (v['sig'], v['msg'].strip().replace('\n', '\n    ')))
                print('  case: %s' % json.dumps(v['case'], default=repr)[:600])
        return 1
    return 0


def main(argv):
    pid, tier = argv[0], argv[1]
    sys.path.insert(0, VERIF)
    from tools.registry import BY_ID
    meta = BY_ID[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    empty = dict(states=set(), transitions=0, traces=0, skipped=0, outcomes={}, violations=[], samples=[], nsamp=0)
    try:
        mod = load(pid)
        if tier == 'replay':
            art = json.load(open(argv[2]))
            ctx = Ctx()
            run_case(mod, art['case'], 0, ctx)
            for v in ctx.violations:
                print('VIOLATION property=%s replay=%s' % (pid, argv[2]))
                print('  [%s] %s' % (v['sig'], v['msg']))
            print('reproduced' if any(v['sig'] == art['sig'] for v in ctx.violations) else 'not reproduced')
            return 1 if ctx.violations else 0
        cases = mod.CASES(tier)
    except Exception as e:
        # the code under test cannot even be loaded or driven: that breaks the property
        empty['violations'].append(dict(index=0, case=None, sig='load:%s' % type(e).__name__,
                                        msg=traceback.format_exc()[-1800:], detail={}))
        return finish(pid, meta, tier, seed, t0, empty, 0, 'load', [])
    nproc = int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
    tot = explore(mod, cases, max(1, min(nproc, len(cases))), known_findings(pid))
    return finish(pid, meta, tier, seed, t0, tot, len(cases), mod.RULE, getattr(mod, 'ASSUME', []))
