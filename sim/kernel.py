"""Deterministic simulation kernel.

Callers are real threads, but exactly one of them runs at any time: every hand-over is decided
here by a seeded generator, at points the interpreter reports through sys.monitoring while the
library's own code runs (every line, or every function entry) and between calls.  The same points
are where asynchronous exceptions (an interrupt, a failed allocation) are injected.  Locks the
library might create are replaced by cooperative ones, so that a blocked caller is a scheduling
event and a deadlock is observed instead of hung on.
"""
import _thread
import ast
import linecache
import os
import random
import sys
import threading
import zlib

MON = sys.monitoring
TOOL = 3
LIB = os.path.realpath(os.environ.get('AJDMOM_SRC', '/repo/src/ajdmom')) + os.sep

_alloc = _thread.allocate_lock
_ident = _thread.get_ident
ACTIVE = None


class Injected(Exception):
    pass


class SimDeadlock(BaseException):
    pass


class SimStall(BaseException):
    pass


def _on_line(code, line):
    s = ACTIVE
    if s is not None and s.cur is not None and s.cur.ident == _ident():
        s.tick(code, line)


def _on_start(code, off):
    s = ACTIVE
    if s is not None and s.cur is not None and s.cur.ident == _ident():
        s.tick(code, code.co_firstlineno)


_codes = []


def install():
    """find every function of the library and register the callbacks (once, before forking)"""
    import gc
    import types
    MON.use_tool_id(TOOL, 'sim')
    MON.register_callback(TOOL, MON.events.LINE, _on_line)
    MON.register_callback(TOOL, MON.events.PY_START, _on_start)
    seen = set()

    def add(c):
        if c in seen or not os.path.realpath(c.co_filename).startswith(LIB):
            return
        seen.add(c)
        _codes.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    _codes.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    return len(_codes)


def watch(gran):
    ev = {'line': MON.events.LINE | MON.events.PY_START, 'call': MON.events.PY_START, 'op': 0}[gran]
    for c in _codes:
        MON.set_local_events(TOOL, c, ev)


_nofault = {}
_cleanup = {}


def cleanup_lines(path):
    """lines of finally blocks, exception handlers and context managers' own methods"""
    r = _cleanup.get(path)
    if r is None:
        r = _cleanup[path] = set()
        try:
            t = ast.parse(''.join(linecache.getlines(path)))
        except SyntaxError:
            return r
        for n in ast.walk(t):
            part = []
            if isinstance(n, ast.Try):
                part = n.finalbody + n.handlers
            elif isinstance(n, ast.FunctionDef) and n.name in ('__enter__', '__exit__', '__del__'):
                part = [n]
            for x in part:
                r.update(range(x.lineno, x.end_lineno + 1))
    return r


def guarded(code, line):
    """a line where an asynchronous exception would bypass a context manager's own exit"""
    k = (code.co_filename, line)
    r = _nofault.get(k)
    if r is None:
        t = linecache.getline(code.co_filename, line).strip()
        r = _nofault[k] = t.startswith(('with ', 'with(', 'try', 'finally', 'except')) or 'release(' in t or line in cleanup_lines(code.co_filename)
    return r


# ---------------------------------------------------------------------------- cooperative locks
class SimLock:
    """stands in for threading.Lock / RLock inside the library"""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.re = reentrant

    def _me(self):
        return _ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.re and self.owner == me:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking or timeout == 0:
                return False
            s = ACTIVE
            if s is None or s.cur is None or s.cur.ident != me:
                raise SimDeadlock('a lock is held by a caller that is gone')
            s.block(self)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == self._me()

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


def patch_locks():
    threading.Lock = lambda: SimLock(False)
    threading.RLock = lambda: SimLock(True)


# ---------------------------------------------------------------------------- callers
class Caller:
    def __init__(self, cid, body):
        self.cid = cid
        self.body = body
        self.gate = _alloc()
        self.gate.acquire()
        self.born = _alloc()
        self.born.acquire()
        self.ident = None
        self.done = False
        self.waiting = None
        self.fault = None            # [event count, exception name] armed for the running call
        self.n = 0                   # events since the running call started
        self.fired = None
        self.error = None


CRASHED = 91
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


class Sim:
    """one simulated execution"""

    def __init__(self, seed, gran='line', mean=40, switches=None, limit=0):
        self.rng = random.Random('sched-%s' % (seed,))
        self.gran = gran
        self.mean = max(1, mean)
        self.explicit = None if switches is None else [tuple(x) for x in switches]
        self.callers = []
        self.cur = None
        self.events = 0
        self.switches = []           # [event number, caller] actually taken
        self.sites = set()
        self.trace = 0
        self.limit = limit
        self.stats = {}
        self.main = _alloc()
        self.main.acquire()
        self.next_at = 0

    # -- bookkeeping
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def mix(self, *x):
        self.trace = zlib.crc32(repr(x).encode(), self.trace)

    def plan_next(self):
        if self.explicit is not None:
            self.next_at = self.explicit[0][0] if self.explicit else -1
        else:
            self.next_at = self.events + 1 + int(self.rng.expovariate(1.0 / self.mean))

    # -- called from the monitoring callbacks, in the running caller
    def tick(self, code, line):
        self.events += 1
        c = self.cur
        c.n += 1
        f = c.fault
        if f is not None and c.n >= f[0] and f[1] == 'crash':
            self.die()
        if f is not None and c.n >= f[0] and not guarded(code, line):
            c.fault = None
            c.fired = f[1]
            self.count('fault:' + f[1])
            self.mix('F', c.cid, code.co_name, line, f[1])
            self.sites.add(('F', code.co_name, line))
            raise EXC[f[1]]('injected')
        if self.limit and self.events > self.limit:
            raise SimStall('more than %d steps' % self.limit)
        if 0 <= self.next_at <= self.events:
            self.sites.add((code.co_name, line))
            self.mix('S', c.cid, code.co_name, line)
            self.reschedule()

    def die(self):
        """the simulated process is killed here: nothing is flushed, no handler runs"""
        os._exit(CRASHED if 'complete' not in ''.join(self.cur.__dict__.get('out', ())) else CRASHED + 1)

    def crash_run(self, fault, f):
        """run f in a process that is killed (fault) somewhere; only what reached the files survives.
        True once it announced completion, False if not, None if it finished"""
        self.events += 1
        pid = os.fork()
        if pid == 0:
            try:
                self.next_at = -1
                self.explicit = []
                c = self.cur
                c.n = 0
                c.out = []
                c.fault = [fault[0], 'crash'] if fault else None
                try:
                    f()
                except BaseException:       # noqa
                    pass
            finally:
                os._exit(0)
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        self.mix('C', self.cur.cid, st)
        if st in (CRASHED, CRASHED + 1):
            self.count('fault:crash')
            return st == CRASHED + 1
        return None

    def runnable(self):
        return [c for c in self.callers if not c.done and (c.waiting is None or c.waiting.owner is None)]

    def choose(self, r=None):
        if r is None:
            r = self.runnable()
        if not r:
            return None
        if self.explicit is not None:
            if self.explicit and self.explicit[0][0] <= self.events:
                want = self.explicit.pop(0)[1]
                for c in r:
                    if c.cid == want:
                        return c
            return self.cur if self.cur in r else r[0]
        return r[self.rng.randrange(len(r))]

    def reschedule(self):
        """let the schedule decide who runs next; returns once the calling caller is chosen again"""
        me = self.cur
        nxt = self.choose()
        self.plan_next()
        if nxt is None:
            raise SimDeadlock('every caller is blocked')
        if nxt is not me:
            self.switches.append([self.events, nxt.cid])
            self.count('preemptions' if not me.done else 'handovers')
            self.hand(me, nxt)

    def hand(self, me, nxt):
        self.cur = nxt
        nxt.gate.release()
        if me is not None and not me.done:
            me.gate.acquire()

    def block(self, lock):
        me = self.cur
        me.waiting = lock
        self.count('lock_waits')
        r = [c for c in self.runnable() if c is not me]
        if not r:
            me.waiting = None
            raise SimDeadlock('every caller is blocked')
        nxt = self.choose(r)
        self.switches.append([self.events, nxt.cid])
        self.plan_next()
        self.hand(me, nxt)
        me.waiting = None

    # -- between operations of a caller
    def begin(self, fault=None):
        c = self.cur
        c.n = 0
        c.fired = None
        c.fault = list(fault) if fault else None

    def end(self):
        c = self.cur
        c.fault = None
        return c.fired

    def point(self, *tag):
        """an operation boundary: a scheduling point of every granularity"""
        self.events += 1
        self.mix('P', self.cur.cid, *tag)
        if self.explicit is None or (self.explicit and self.explicit[0][0] <= self.events):
            self.reschedule()

    def _thread_main(self, c):
        c.ident = _ident()
        c.born.release()
        c.gate.acquire()
        try:
            c.body(c)
        except BaseException as e:          # noqa
            c.error = e
        c.done = True
        nxt = None
        try:
            nxt = self.choose()
            if nxt is None and any(not o.done for o in self.callers):
                for o in self.callers:
                    if not o.done:
                        o.error = SimDeadlock('blocked for ever')
        finally:
            if nxt is None:
                self.main.release()
            else:
                self.switches.append([self.events, nxt.cid])
                self.plan_next()
                self.cur = nxt
                nxt.gate.release()

    def run(self, bodies):
        global ACTIVE
        self.callers = [Caller(i, b) for i, b in enumerate(bodies)]
        for c in self.callers:
            _thread.start_new_thread(self._thread_main, (c,))
        for c in self.callers:
            c.born.acquire()
        ACTIVE = self
        first = self.choose()
        self.switches.append([0, first.cid])
        self.plan_next()
        self.cur = first
        watch(self.gran)
        first.gate.release()
        self.main.acquire()
        watch('op')
        ACTIVE = None
        self.cur = None
        for c in self.callers:
            if c.error is not None:
                return c
        return None
