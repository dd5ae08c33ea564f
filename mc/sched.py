"""Controlled scheduler: runs real threads one at a time over the real code and enumerates every schedule
within a preemption bound (stateless depth-first search by replay).

Switch points: before every byte-code of the traced source files that reads an attribute some thread stores during
the scenario, stores an attribute or element, works in place, calls a method, or operates a lock.
"""
import dis
import sys
import threading
import _thread

_RealLock = threading.Lock
_RealRLock = threading.RLock
_ctl = None                      # the running Run, if any
MADE = []                        # every schedulable lock made since the last reset()


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Injected(Exception):
    """the enumerated fault"""


class SLock(object):
    """stand-in for threading.Lock made inside pytracer"""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        MADE.append(self)

    def acquire(self, blocking=True, timeout=-1):
        run = _ctl
        me = run.me() if run else None
        if me is None:
            if self.owner is not None and not (self.reentrant and self.owner == 'main'):
                if not blocking or timeout >= 0:
                    return False
                raise Deadlock('lock is still held by %r' % (self.owner,))
            self.owner = 'main'
            self.count += 1
            return True
        run.point(me, 'acquire')
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            run.block(me, self)
        self.owner = me
        self.count += 1
        run.held.setdefault(id(self), self)
        return True

    def release(self):
        run = _ctl
        me = run.me() if run else None
        if me is not None:
            run.point(me, 'release')
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SRLock(SLock):
    reentrant = True


def reset():
    del MADE[:]


def any_held():
    return any(l.owner is not None for l in MADE)


def install():
    """locks created by pytracer modules become schedulable"""
    def mk(real, stand):
        def factory(*a, **k):
            if sys._getframe(1).f_globals.get('__name__', '').startswith('pytracer'):
                return stand()
            return real(*a, **k)
        return factory
    threading.Lock = mk(_RealLock, SLock)
    threading.RLock = mk(_RealRLock, SRLock)


MUT = ('append', 'extend', 'pop', 'insert', 'remove', 'clear', 'update', 'add', 'sort', 'setdefault', 'popitem')
_plans = {}
PRIVATE_INIT = False             # no switches while a constructor runs: nobody else has the object yet
COARSE = False                   # switch at entries of the functions in CALLS, element stores, mutating methods and the attributes named only
CALLS = ()


def plan(code, shared):
    """offset -> kind of switch point"""
    key = (code, shared)
    p = _plans.get(key)
    if p is None:
        p = {}
        for i in dis.get_instructions(code):
            n = i.opname
            if COARSE:
                if n in ('STORE_SUBSCR', 'DELETE_SUBSCR', 'STORE_GLOBAL') or n in ('LOAD_ATTR', 'LOAD_METHOD', 'LOOKUP_METHOD', 'STORE_ATTR', 'DELETE_ATTR', 'LOAD_GLOBAL') and i.argval in shared \
                        or n in ('LOAD_METHOD', 'LOOKUP_METHOD') and i.argval in MUT:
                    p[i.offset] = n
                continue
            if n in ('STORE_ATTR', 'DELETE_ATTR', 'STORE_GLOBAL'):
                p[i.offset] = n
            elif n in ('LOAD_ATTR', 'LOAD_METHOD', 'LOOKUP_METHOD'):
                if i.argval in MUT or shared is None or i.argval in shared:
                    p[i.offset] = n
            elif n in ('STORE_SUBSCR', 'DELETE_SUBSCR') or n.startswith('INPLACE_'):
                p[i.offset] = n
            elif n in ('CALL_METHOD', 'LIST_APPEND') and shared is None:
                p[i.offset] = n
        _plans[key] = p
    return p


def stores(code, acc):
    for i in dis.get_instructions(code):
        if i.opname in ('STORE_ATTR', 'DELETE_ATTR'):
            acc.add(i.argval)


class Run(object):
    def __init__(self, fns, prefix, files, shared, fault=None, limit=20000):
        self.fns, self.prefix, self.files, self.shared = fns, prefix, files, shared
        self.n = len(fns)
        self.sem = [_RealLock() for _ in fns]
        for s in self.sem:
            s.acquire()
        self.mainsem = _RealLock()
        self.mainsem.acquire()
        self.idents = {}
        self.done = [False] * self.n
        self.waiting = [None] * self.n
        self.errors = [None] * self.n
        self.results = [None] * self.n
        self.trace = []           # (current, enabled, chosen)
        self.steps = 0
        self.cur = None
        self.abort = False
        self.deadlock = False
        self.held = {}
        self.codes = set()
        self.fault = fault        # (thread, k): raise at the k-th fault point of that thread
        self.fpoints = [0] * self.n
        self.faulted = False
        self.limit = limit

    def me(self):
        return self.idents.get(_thread.get_ident())

    def enabled(self):
        return [t for t in range(self.n) if not self.done[t] and
                (self.waiting[t] is None or self.waiting[t].owner is None)]

    def choose(self, me):
        """pick the next thread; me=None when the current one cannot go on"""
        en = self.enabled()
        if not en:
            return None
        k = len(self.trace)
        if len(en) == 1 and (me is None or en[0] == me):
            return en[0]
        if k < len(self.prefix):
            c = self.prefix[k]
            if c not in en:
                raise RuntimeError('replay diverged')
        else:
            c = me if me is not None and me in en else en[0]
        self.trace.append((me, tuple(en), c))
        return c

    def point(self, me, kind):
        if self.abort:
            raise Abort()
        self.steps += 1
        if self.steps > self.limit:
            self.abort = True
            self.deadlock = 'livelock'
            raise Abort()
        c = self.choose(me)
        if c != me:
            self.switch(me, c)

    def switch(self, me, c):
        self.cur = c
        self.sem[c].release()
        self.sem[me].acquire()
        if self.abort:
            raise Abort()

    def block(self, me, lock):
        self.waiting[me] = lock
        c = self.choose(None)
        if c is None:
            self.deadlock = True
            self.kill()
            raise Abort()
        if c != me:
            self.switch(me, c)
        self.waiting[me] = None

    def kill(self):
        self.abort = True
        for t in range(self.n):
            if not self.done[t] and t != self.me():
                try:
                    self.sem[t].release()
                except RuntimeError:
                    pass

    def tracer(self, me):
        files, shared = self.files, self.shared

        def local(frame, event, arg):
            if event == 'opcode':
                code = frame.f_code
                p = plan(code, shared)
                k = p.get(frame.f_lasti)
                if k is not None:
                    self.point(me, k)
                if self.fault is not None and self.fault[0] == me:
                    op = dis.opname[code.co_code[frame.f_lasti]]
                    if op.startswith('INPLACE_') or op.startswith('BINARY_') and op != 'BINARY_SUBSCR':
                        self.fpoints[me] += 1
                        if self.fpoints[me] - 1 == self.fault[1]:
                            self.faulted = True
                            raise Injected('fault %d' % self.fault[1])
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.endswith(files):
                self.codes.add(frame.f_code)
                if PRIVATE_INIT:
                    f = frame
                    for _ in range(4):
                        if f is None:
                            break
                        if f.f_code.co_name == '__init__' and f.f_code.co_filename.endswith(files):
                            return None
                        f = f.f_back
                if COARSE:
                    if fn.endswith(CALLS):
                        self.point(me, 'call')
                    if not plan(frame.f_code, shared):
                        return None
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return local
            return None
        return glob

    def body(self, t):
        self.idents[_thread.get_ident()] = t
        self.sem[t].acquire()
        try:
            if not self.abort:
                sys.settrace(self.tracer(t))
                try:
                    self.results[t] = self.fns[t]()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            self.errors[t] = e
        self.done[t] = True
        self.waiting[t] = None
        if self.abort:
            if all(self.done):
                self.mainsem.release()
            else:
                for q in range(self.n):
                    if not self.done[q]:
                        try:
                            self.sem[q].release()
                        except RuntimeError:
                            pass
                        break
            return
        c = self.choose(None)
        if c is None:
            if all(self.done):
                self.mainsem.release()
            else:
                self.deadlock = True
                self.abort = True
                q = self.done.index(False)
                self.sem[q].release()
        else:
            self.cur = c
            self.sem[c].release()

    def go(self):
        global _ctl
        _ctl = self
        try:
            for t in range(self.n):
                _thread.start_new_thread(self.body, (t,))
            c = self.choose(None)
            self.sem[c].release()
            self.mainsem.acquire()
        finally:
            _ctl = None
        return self


def learn(setup, files):
    """attribute names stored anywhere by the code the scenario runs (closed under one discovery round)"""
    shared = frozenset()
    r = None
    for _ in range(2):
        r = Run(setup()[1], [], files, shared).go()
        acc = set()
        for c in r.codes:
            stores(c, acc)
        shared = frozenset(acc)
    return shared


def explore(setup, check, files, bound, shared=None, shard=(0, 1), fault=None, cap=10**9):
    """setup() -> (world, [thread functions]); check(world, run).  Returns (schedules, switch points, complete)"""
    if shared is None:
        shared = learn(setup, files)
    k, m = shard
    stack = [[]]
    runs = points = 0
    first = True
    while stack:
        prefix = stack.pop()
        world, fns = setup()
        r = Run(fns, prefix, files, shared, fault).go()
        points += r.steps
        if not (first and k):
            runs += 1
            if check(world, r) is False:
                return runs, points, False
        cost = 0
        ch = [c for _, _, c in r.trace]
        new = []
        for i, (me, en, c) in enumerate(r.trace):
            if i >= len(prefix):
                for alt in en:
                    if alt != c:
                        extra = 1 if (me is not None and me in en and alt != me) else 0
                        if cost + extra <= bound:
                            new.append(ch[:i] + [alt])
            if me is not None and me in en and c != me:
                cost += 1
        if first:
            new = new[k::m]
            first = False
        stack += new
        if runs >= cap:
            return runs, points, False
    return runs, points, True
