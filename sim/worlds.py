"""Worlds: what the simulated callers do, and what is checked while and after they do it."""
import ast
import errno
import math
import os
import random
import re
import shutil
import sys
import zlib
import builtins
import copy
import pickle
from fractions import Fraction as Fr

import numpy as np

import kernel
import queries as q
import seams
from queries import Mismatch


class Violation(Exception):
    def __init__(self, kind, msg, op=None):
        super().__init__(kind, msg)
        self.kind, self.msg, self.op = kind, msg, op


def is_poly(x):
    return hasattr(x, 'keyfor') and hasattr(x, 'data')


def freeze(x):
    if is_poly(x):
        return ('P', x.keyfor if isinstance(x.keyfor, tuple) else tuple(x.keyfor), dict(x.data))
    if isinstance(x, dict):
        return ('D', {k: freeze(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if hasattr(x, 'dtype') and getattr(x, 'shape', None):
        return ('A', x.shape, [float(v) for v in x.reshape(-1)])
    return x


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class PlanError(Exception):
    pass


# ================================================================== what a call must leave alone
def thread_settings():
    import decimal
    d = decimal.getcontext()
    return {'numpy error handling': tuple(sorted(np.geterr().items())), 'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
            'numpy error callback': np.geterrcall(),
            'decimal context': (d.prec, d.rounding, d.Emin, d.Emax, d.capitals, d.clamp, tuple(sorted((t.__name__, v) for t, v in d.traps.items()))),
            'trace function': sys.gettrace(), 'profile function': sys.getprofile()}


def process_settings(draws=True):
    import gc
    import locale
    import signal
    import threading
    import warnings
    mask = os.umask(0o77)
    os.umask(mask)
    d = {'recursion limit': sys.getrecursionlimit(), 'digits limit': sys.get_int_max_str_digits(), 'switch interval': sys.getswitchinterval(),
         'warning filters': tuple(map(repr, warnings.filters)), 'warning display': warnings.showwarning, 'working directory': os.getcwd(),
         'environment': tuple(sorted(os.environ.items())), 'umask': mask, 'random module state': hash(random.getstate()),
         'signal handlers': tuple(repr(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGPIPE, signal.SIGCHLD, signal.SIGUSR1)),
         'alarm': signal.getitimer(signal.ITIMER_REAL)[0] > 0, 'locale': locale.setlocale(locale.LC_ALL), 'module search path': tuple(sys.path),
         'collector': (gc.isenabled(), gc.get_threshold()), 'threads': tuple(sorted(t.name for t in threading.enumerate() if not t.name.startswith('Dummy-'))),
         'output streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
         'hooks': tuple(map(id, (sys.excepthook, sys.displayhook, threading.excepthook, open, print))), 'builtins': hash(tuple(sorted(vars(builtins))))}
    if draws:
        s = np.random.get_state()
        d['numpy generator'] = (hash(s[1].tobytes()),) + tuple(s[2:])
    return d


def handles():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            out.append(os.readlink('/proc/self/fd/' + n))
        except OSError:
            pass
    return sorted(x for x in out if '/proc/' not in x)


def differs(a, b):
    for k in a:
        if a[k] != b[k]:
            return '%s (%s, was %s)' % (k, short(b[k], 120), short(a[k], 120))
    return None


def held():
    """how much the library holds in its modules, classes, function defaults, closures and caches"""
    import types
    n = 0
    seen = {}                             # by id; holding on to each, so that no id is used twice
    todo = [vars(m) for k, m in sorted(sys.modules.items()) if (k == 'ajdmom' or k.startswith('ajdmom.')) and m is not None]
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (types.ModuleType, str, bytes, int, float, Fr)):
            continue
        seen[id(x)] = x
        if isinstance(x, dict):
            n += len(x)
            todo += [v for k, v in list(x.items()) if k != '__builtins__'] + [k for k in list(x) if isinstance(k, tuple)]
        elif isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ == 'deque':
            n += len(x)
            todo += list(x)
        elif hasattr(x, 'cache_info') and callable(x):
            n += x.cache_info().currsize
            todo.append(getattr(x, '__wrapped__', None))
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or '').startswith('ajdmom'):
                todo += [x.__defaults__, x.__kwdefaults__, x.__dict__]
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(x, type):
            if (x.__module__ or '').startswith('ajdmom'):
                todo.append(dict(vars(x)))
        elif (type(x).__module__ or '').startswith('ajdmom') or type(x).__module__ == 'collections':
            todo.append(getattr(x, '__dict__', None))
    return n


LEFT = ('left-behind', 'printed', 'deadlock', 'stall')
IMPORTED = [None]                     # what importing the library changed


class World:
    name = ''

    def __init__(self, plan):
        self.plan = plan
        self.kept = []                # (live object, frozen copy, description)
        self.checked = 0
        self.retries = 0
        self.seen = set()             # distinct operations whose outcome was checked
        self.guard = bool(plan.get('guard'))
        self.inside = 0

    draws = False                     # its calls use the global generator
    prints = False                    # its calls announce things

    def setup(self):
        pass

    def begin_guard(self):
        if IMPORTED[0]:
            raise Violation('left-behind', 'importing the library changed the %s' % IMPORTED[0], [0, 0])
        self.proc0 = process_settings(not self.draws)
        self.fds = handles()

    def around(self, op, f):
        """f() with the settings of the thread, and once nobody is inside the library those of the process, as before"""
        t0 = thread_settings()
        self.sim.cur.__dict__['out'] = []
        self.inside += 1
        try:
            return f()
        finally:
            self.inside -= 1
            bad = differs(t0, thread_settings()) or (not self.inside and differs(self.proc0, process_settings(not self.draws)))
            if bad:
                raise Violation('left-behind', '%s changed the %s' % (self.describe(op), bad))
            said = ''.join(self.sim.cur.__dict__.get('out', ()))
            if said and not self.prints and not self.may_print(op):
                raise Violation('printed', '%s printed %s' % (self.describe(op), short(said, 80)))

    def may_print(self, op):
        return getattr(self.sim.cur, 'may_print', False)

    def prefetch(self):
        """work that involves no library code, done before the simulated process starts"""

    def finish(self):
        if self.guard:
            import gc
            gc.collect()
            bad = differs(self.proc0, process_settings(not self.draws))
            if bad:
                raise Violation('left-behind', 'the run changed the %s' % bad)
            if handles() != self.fds:
                raise Violation('left-behind', 'the run changed the open files: %s, were %s' % (short(handles()), short(self.fds)))
            return
        for live, was, d in self.kept:
            if freeze(live) != was:
                raise Violation('answer-changed', 'the answer to %s changed after it was returned' % d)

    def body(self, c):
        for i, op in enumerate(self.plan['callers'][c.cid]):
            self.sim.point(i)
            try:
                self.do(c, i, op)
            except Violation as v:
                if self.guard and v.kind not in LEFT:
                    continue                              # somebody else's property
                if v.op is None:
                    v.op = [c.cid, i]
                raise
            except (kernel.SimDeadlock, kernel.SimStall, PlanError):
                raise
            except BaseException as e:      # noqa: judging an answer must not fail on a proper one
                if self.guard:
                    continue
                import traceback
                raise Violation('malformed-answer', '%s: the outcome cannot be judged: %s' % (
                    self.describe(op), ' | '.join(traceback.format_exception(e)[-3:]).replace(chr(10), ' ')), [c.cid, i])

    # -- one library call under the simulator
    def call(self, op, f, ok=()):
        """call f, injecting op's fault; after an injected exception the call is repeated once.
        returns (value, exception)"""
        sim = self.sim
        fault = op.get('fault')
        while True:
            sim.begin(fault)
            err = None
            val = None
            try:
                val = self.around(op, f) if self.guard else f()
            except (kernel.SimDeadlock, kernel.SimStall):
                raise
            except Violation as v:
                if self.guard and v.kind in LEFT:
                    raise
                err = v
            except BaseException as e:      # noqa
                err = e
            fired = sim.end()
            if fired:
                sim.count('interrupted_calls')
            if err is not None and fired:
                if not caused_by(err, fired):
                    raise Violation('fault-masked', 'an injected %s surfaced as %r' % (fired, err))
                fault = None
                self.retries += 1
                self.after_interrupt(op)
                continue
            if err is not None and not isinstance(err, ok):
                import traceback
                tb = traceback.extract_tb(err.__traceback__)
                last = tb[-1]
                raise Violation('exception', '%s raised %s: %s (at %s:%s)' % (
                    self.describe(op), type(err).__name__, err, os.path.basename(last.filename), last.name))
            return val, err

    def after_interrupt(self, op):
        pass

    def describe(self, op):
        return short(op)


def caused_by(e, name):
    t = kernel.EXC[name]
    n = 0
    while e is not None and n < 20:
        if isinstance(e, t):
            return True
        e = e.__cause__ or e.__context__
        n += 1
    return False


# ================================================================== queries
def scramble(x, how):
    """what a caller may do to an answer it was given"""
    if is_poly(x):
        if how == 1:
            for k in list(x.data):
                x.data[k] = x.data[k] * 7 + 3
            x[tuple(99 for _ in x.keyfor)] = Fr(1, 7)
        elif how == 2:
            x.clear()
            x.set_keyfor(['scrap'])
        else:
            for k in list(x.data)[:1]:
                del x.data[k]
            x.add_keyval(tuple(0 for _ in x.keyfor), Fr(12345, 7))
            x.remove_zero()
    elif isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, how)
        if how == 2:
            x.clear()
    elif isinstance(x, list):
        for v in x:
            scramble(v, how)
        if how == 2:
            del x[:]
        elif how == 3 and x:
            x.pop(0)


def exps_ok(e):
    if isinstance(e, tuple):
        return all(exps_ok(x) for x in e)
    return isinstance(e, int) and not isinstance(e, bool)


def well_formed(P, kf):
    if not is_poly(P):
        raise Mismatch('expected a formula, got %s' % type(P).__name__)
    if not isinstance(P.keyfor, tuple) or not all(isinstance(n, str) for n in P.keyfor):
        raise Mismatch('key layout %r is not a tuple of names' % (P.keyfor,))
    if kf is not None and tuple(P.keyfor) != tuple(kf):
        raise Mismatch('key layout is %r, documented %r' % (P.keyfor, tuple(kf)))
    fz = [P.keyfor.index(n) for n in q.FZ4 if n in P.keyfor] if 'o_{1:n}' in P.keyfor else \
         [P.keyfor.index(n) for n in q.FZ2 if n in P.keyfor]
    for k, v in P.items():
        if not isinstance(k, tuple) or len(k) != len(P.keyfor):
            raise Mismatch('key %r does not fit the %d-element layout' % (k, len(P.keyfor)))
        if not all(exps_ok(e) for e in k):
            raise Mismatch('key %r has a component that is not an integer power' % (k,))
        if isinstance(v, bool) or not isinstance(v, (int, Fr)):
            raise Mismatch('coefficient %r is not an exact rational' % (v,))
        if len(fz) == 4:
            l, o, p, r = (len(k[i]) for i in fz)
            if not (l == o and p == r == max(0, l - 1)):
                raise Mismatch('summation sub-keys of %r have lengths %s' % (k, (l, o, p, r)))
        elif len(fz) == 2:
            l, o = (len(k[i]) for i in fz)
            if o != max(0, l - 1):
                raise Mismatch('summation sub-keys of %r have lengths %s' % (k, (l, o)))


def check_form(Q, res, a):
    kf = Q.kf(a) if callable(Q.kf) else Q.kf
    if Q.kind == 'poly':
        well_formed(res, kf)
    elif Q.kind == 'list':
        if not isinstance(res, list) or len(res) < a[0] + 1:
            raise Mismatch('expected a list of orders 0..%d' % a[0])
        for i in range(a[0] + 1):
            try:
                well_formed(res[i], kf)
            except Mismatch as e:
                raise Mismatch('order %d: %s' % (i, e))
    elif Q.kind == 'dict':
        if not isinstance(res, dict) or tuple(a) not in res:
            raise Mismatch('requested order missing from the returned dict')
        for k, v in res.items():
            try:
                well_formed(v, kf)
            except Mismatch as e:
                raise Mismatch('entry %r: %s' % (k, e))
    elif Q.kind == 'num':
        f = float(res)
        if not math.isfinite(f):
            raise Mismatch('%r is not a finite number' % (res,))


def same_answer(Q, a, p, got, want):
    """is a live answer the one a fresh process gives?"""
    f = freeze(got)
    if f == want:
        return
    if isinstance(want, (int, float, Fr)) and isinstance(f, (int, float, Fr)) or (hasattr(f, 'dtype') and not isinstance(want, tuple)):
        if abs(float(f) - float(want)) <= 1e-10 * abs(float(want)) + 1e-13:
            return
        try:
            Q.check(got, list(a), p)        # another order of summation is no other answer
        except Exception:                   # noqa
            raise Mismatch('%.17g here, %.17g in a fresh process' % (float(f), float(want)))
        return
    pairs = []
    if isinstance(want, tuple) and isinstance(f, tuple) and want[0] == f[0]:
        if want[0] == 'P':
            pairs = [(f, want)]
        elif want[0] == 'D' and set(want[1]) == set(f[1]):
            pairs = [(f[1][k], want[1][k]) for k in want[1]]
        elif want[0] in ('list', 'tuple') and len(want[1]) == len(f[1]):
            pairs = list(zip(f[1], want[1]))
    ok = bool(pairs) and Q.env is not None
    for x, y in pairs:
        if x == y:
            continue
        if not ok or x[1] != y[1]:
            ok = False
            break
        A, B = q.Joined(x[2]), q.Joined(y[2])
        A.keyfor, B.keyfor = x[1], y[1]
        va, sa = q.value(A, Q.env(p))
        vb, sb = q.value(B, Q.env(p))
        if abs(va - vb) > q.PREC * (sa + sb + 1):
            ok = False
            break
    if not ok:
        raise Mismatch('answer %s differs from the one of a fresh process %s' % (short(f), short(want)))


class QueryWorld(World):
    name = 'query'

    def setup(self):
        self.shared = {}

    def params(self, op):
        return q.params(q.TABLE[op['q']], op['ps'])

    def prefetch(self):
        if self.plan['mode'] == 'value':
            for ops in self.plan['callers']:
                for op in ops:
                    q.TABLE[op['q']].prefetch(list(op['a']), self.params(op))

    def describe(self, op):
        return '%s%s' % (q.TABLE[op['q']].name, tuple(op['a']))

    def do(self, c, i, op):
        Q = q.TABLE[op['q']]
        if op.get('name') and op['name'] != Q.name:
            raise PlanError('plan does not match the query table')
        a = list(op['a'])
        p = self.params(op)
        pd = q.given(p, op['ps'])
        if zlib.crc32(('more-' + op['ps']).encode()) % 4 == 0:     # the dict may hold more than is asked for, in any order
            pd = {n: pd[n] for n in sorted(pd, reverse=True)}
            pd.update({'S0': 100.0, 'note': 'mine'})
        if op.get('share'):
            pd = self.shared.setdefault(repr(sorted(pd.items())), pd)
        elif op.get('reuse') and getattr(c, 'pd', None) is not None:
            c.pd.clear()
            c.pd.update(pd)
            pd = c.pd
        else:
            c.pd = pd
        before = freeze(pd)
        a0 = list(a)
        what = self.describe(op)
        c.may_print = any(x in Q.name for x in ('multilevel', 'cmoments_y_to')) and bool(q.shows(pd))

        def f():
            return Q.call(a, pd)

        def untouched():
            if freeze(pd) != before or a != a0:
                raise Violation('argument-changed', '%s changed its arguments: %s' % (what, short(freeze(pd))))
            if Q.operand is not None:
                kf = q.KF[Q.operand] if isinstance(Q.operand, str) else Q.operand
                if freeze(q._rp(Q.operand)(a, pd)) != freeze(q.rand_poly(kf, a[0], pd)):
                    raise Violation('argument-changed', '%s changed the formula it was given' % what)
        self.after_interrupt = lambda op: untouched()
        try:
            res, _ = self.call(op, f)
        except Mismatch as e:
            raise Violation('wrong-answer', '%s: %s' % (what, e))
        untouched()
        try:
            mode = self.plan['mode']
            if mode == 'guard':
                if len(self.plan['callers']) == 1 and 'fault' not in op and zlib.crc32(op['ps'].encode()) % 3 == 0:
                    alone = {k: v for k, v in op.items() if k != 'fault'}
                    for _ in range(2):                    # asked over and over
                        self.call(alone, f)
                    much = [held()]
                    for _ in range(3):
                        self.call(alone, f)
                        much.append(held())
                        if much[-1] <= much[-2]:
                            break
                    else:
                        raise Violation('left-behind', '%s: the library holds more after every repetition (%s elements)' % (what, ', '.join(map(str, much))))
                    self.sim.count('repeated_questions')
            elif mode == 'value':
                Q.check(res, a, p)
            elif mode == 'form':
                check_form(Q, res, a)
            else:
                want = self.plan['_base'][base_key(op)]
                if want[0] == 'exc':
                    raise Mismatch('an answer here, %s in a fresh process' % want[1])
                same_answer(Q, a, p, res, want[1])
        except Mismatch as e:
            raise Violation('wrong-answer', '%s with %s: %s' % (what, short(q.fpar(p), 600), e))
        except (kernel.SimDeadlock, kernel.SimStall, Violation):
            raise
        except Exception as e:
            raise Violation('malformed-answer', '%s: the answer cannot be read (%s: %s)' % (what, type(e).__name__, e))
        self.checked += 1
        self.seen.add('%d%s%s' % (op['q'], a, op['ps'] if mode != 'form' else ''))
        if op.get('edit'):
            scramble(res, op['edit'])
            self.sim.count('caller_edits')
        else:
            self.kept.append((res, freeze(res), what))


def base_key(op):
    return '%d|%s|%s' % (op['q'], op['a'], op['ps'])


def baseline(op):
    """the answer of a process that does nothing else"""
    Q = q.TABLE[op['q']]
    p = q.params(Q, op['ps'])
    out, sys.stdout = sys.stdout, seams.Out()
    try:
        return ('ok', freeze(Q.call(list(op['a']), q.given(p, op['ps']))))
    except Exception as e:
        return ('exc', type(e).__name__)
    finally:
        sys.stdout = out


# ================================================================== formula algebra
LAYOUTS = [['x'], ['e', 'h'], ['e^{kt}', 't', 'k^{-}', 'theta', 'sigma'], ['a', 'l_{1:n}', 'b'],
           ['e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)', 'lambda', 'mu_j', 'sigma_j']]
OPS = ['add', 'sub', 'mul', 'rmul', 'pow', 'mul_poly', 'merge', 'iadd', 'add_keyval', 'remove_zero', 'type', 'kv', 'selfmerge', 'addsub', 'copy']


def operand_items(seed, lay, big=False):
    rng = random.Random('operand-%s' % (seed,))
    n = rng.choice([0, 1, 1, 2, 3, 4, 6] + ([12] if big else []))
    wide = rng.random() < 0.2                                  # coefficients of very different sizes
    d = {}
    for _ in range(n):
        key = []
        for nm in LAYOUTS[lay]:
            if nm == 'l_{1:n}':
                key.append(tuple(rng.randint(-1, 2) for _i in range(rng.randint(0, 2))))
            else:
                key.append(rng.randint(-2, 3))
        r = rng.random()
        v = rng.randint(-4, 4) if r < 0.3 else Fr(rng.randint(-9, 9), rng.choice([1, 2, 3, 4, 7]))
        if v == 0 and rng.random() < 0.7:
            v = Fr(1, 3)
        if wide and rng.random() < 0.6:
            v = v * Fr(rng.choice([10, 2, 3])) ** rng.choice([-40, -17, -9, -5, 5, 9, 17, 40]) + (rng.choice([0, 1]) if v else 0)
        d[tuple(key)] = v
    return d


def nz(d):
    return {k: v for k, v in d.items() if v != 0}


def m_add(a, b, s=1):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + s * v
    return nz(d)


def m_mul(a, b):
    d = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(x + y for x, y in zip(k1, k2))
            d[k] = d.get(k, 0) + v1 * v2
    return nz(d)


class AlgebraWorld(World):
    """callers share operand formulas; every result is compared with plain dict arithmetic"""
    name = 'algebra'

    def setup(self):
        from ajdmom.poly import Poly
        self.Poly = Poly
        self.pool = []
        for seed, lay in self.plan['pool']:
            P = Poly(operand_items(seed, lay))
            names = list(LAYOUTS[lay])
            P.set_keyfor(names)
            names[0] = 'mine'                                  # the list stays its owner's
            if tuple(P.keyfor) != tuple(LAYOUTS[lay]):
                raise Violation('aliased', 'a formula changes its layout when the list its names were set from is changed')
            self.pool.append(P)
        self.model = [freeze(P) for P in self.pool]

    def describe(self, op):
        return 'formula operation %s' % short(op)

    def pools_ok(self, op):
        for i, P in enumerate(self.pool):
            if freeze(P) != self.model[i]:
                raise Violation('argument-changed', '%s changed operand %d: %s, was %s' % (self.describe(op), i, short(freeze(P)), short(self.model[i])))

    def after_interrupt(self, op):
        self.pools_ok(op)

    def do(self, c, i, op):
        Poly = self.Poly
        A, B = self.pool[op['x']], self.pool[op['y']]
        a, b = dict(A.data), dict(B.data)
        kind = op['op']
        kf = A.keyfor
        own = None
        if kind in ('add', 'sub', 'mul', 'merge', 'iadd', 'addsub') and A.keyfor != B.keyfor:
            kind = 'rmul'
        if kind == 'add':
            f, want = (lambda: A + B), m_add(a, b)
        elif kind == 'sub':
            f, want = (lambda: A - B), m_add(a, b, -1)
        elif kind == 'mul':
            f, want = (lambda: A * B), m_mul(a, b)
        elif kind == 'iadd':
            def f():
                X = A
                X += B
                return X
            want = m_add(a, b)
        elif kind == 'rmul':
            s = Fr(op['n'], op['d']) if op['d'] > 1 else op['n']
            f, want = (lambda: s * A), nz({k: s * v for k, v in a.items()})
        elif kind == 'pow':
            n = 1 + abs(op['n']) % 4
            if len(a) <= 3 and op['d'] >= 3:
                n = 1 + abs(op['n']) * op['d'] % 11
            want = a
            for _ in range(n - 1):
                want = m_mul(want, a)
            if n == 1:
                want = a
            f = lambda: A ** n
        elif kind == 'mul_poly':
            rng = random.Random('mp-%s' % op['n'])
            la, lb = len(A.keyfor), len(B.keyfor)
            ints = lambda kf: [j for j, nm in enumerate(kf) if nm != 'l_{1:n}']
            w = rng.randint(1, 8)
            i1 = [rng.choice(ints(A.keyfor) + [-1]) for _ in range(w)]
            i2 = [rng.choice(ints(B.keyfor) + [-1]) for _ in range(w)]
            kf = tuple('n%d' % j for j in range(w))
            g = lambda j, k: k[j] if 0 <= j < len(k) else 0
            want = {}
            for k1, v1 in a.items():
                for k2, v2 in b.items():
                    k = tuple(g(i1[j], k1) + g(i2[j], k2) for j in range(w))
                    want[k] = want.get(k, 0) + v1 * v2
            want = nz(want)
            ids = (list(i1), list(i2))

            def f():
                names = list(kf)
                r = A.mul_poly(B, ids, names)
                names[0] = 'mine'
                if ids != (i1, i2):
                    raise Mismatch('mul_poly changed the index lists')
                return r
        elif kind in ('merge', 'add_keyval', 'remove_zero'):
            # in place, on the caller's own copy; an interrupted attempt is thrown away
            key = sorted(a)[op['n'] % len(a)] if a and op['n'] % 2 else tuple(op['n'] if nm != 'l_{1:n}' else () for nm in A.keyfor)
            val = Fr(op['n'], max(1, op['d']))

            def f():
                X = Poly(dict(a))
                X.set_keyfor(A.keyfor)
                if kind == 'merge':
                    X.merge(B)
                elif kind == 'add_keyval':
                    X.add_keyval(key, val)
                else:
                    X.remove_zero()
                return X
            if kind == 'merge':
                want = m_add(a, b)
            elif kind == 'add_keyval':
                want = dict(a)
                want[key] = want.get(key, 0) + val
            else:
                want = nz(a)
        elif kind == 'selfmerge':
            def f():
                X = Poly(dict(a))
                X.set_keyfor(A.keyfor)
                X.merge(X)
                return X
            want = m_add(a, a)
        elif kind == 'copy':                                    # copies are the same formula, and independent
            how = [copy.copy, copy.deepcopy, lambda X: X.copy(), lambda X: pickle.loads(pickle.dumps(X))][op['d'] % 4]
            f, want = (lambda: how(A)), a
        elif kind == 'addsub':                                  # big sums that cancel but for a little
            f = lambda: (A + B + A) - (A + B)
            want = nz(a)
        elif kind == 'kv':
            from ajdmom.poly import kv
            key = tuple(range(5, 5 + abs(op['n']) % 4))
            j = op['d'] - 2
            res, _ = self.call(op, lambda: kv(j, key))
            if res != (key[j] if 0 <= j < len(key) else 0):
                raise Violation('wrong-answer', 'element %d of %r read as %r' % (j, key, res))
            self.checked += 1
            return
        else:
            res, _ = self.call(op, lambda: (A.is_exact_type(B), A.is_exact_type(a)))
            if res != (A.keyfor == B.keyfor, False):
                raise Violation('wrong-answer', 'is_exact_type said %r for layouts %r and %r' % (res, A.keyfor, B.keyfor))
            self.checked += 1
            return
        try:
            res, _ = self.call(op, f)
        except Mismatch as e:
            raise Violation('argument-changed', str(e))
        self.pools_ok(op)
        if not is_poly(res) or not isinstance(res, Poly):
            raise Violation('wrong-answer', '%s gave a %s' % (self.describe(op), type(res).__name__))
        if tuple(res.keyfor) != tuple(kf):
            raise Violation('wrong-answer', '%s gave key layout %r, expected %r' % (self.describe(op), res.keyfor, kf))
        got = dict(res.data)
        strict = kind not in ('pow', 'add_keyval', 'copy')
        if (got if strict else nz(got)) != (want if strict else nz(want)):
            raise Violation('wrong-answer', '%s of %s and %s gave %s, expected %s' % (kind, short(a), short(b), short(got), short(want)))
        for v in got.values():
            if isinstance(v, float):
                raise Violation('wrong-answer', '%s gave an inexact coefficient %r' % (kind, v))
        self.checked += 1
        self.seen.add(repr((kind, sorted(map(str, a.items())), sorted(map(str, b.items())), op['n'], op['d'])))
        if any(res is P or res.data is P.data for P in self.pool):
            raise Violation('aliased-answer', '%s returned one of its operands' % kind)
        if op.get('edit'):
            scramble(res, op['edit'])
            self.sim.count('caller_edits')
            self.pools_ok(op)
        else:
            self.kept.append((res, freeze(res), self.describe(op)))

    def finish(self):
        super().finish()
        self.pools_ok({'op': 'end of run'})


# ================================================================== samplers
def traj_1f(v0, p, N, S, h, z, jumps=None, iid=False):
    """z[n][j] = (variance noise, price noise); jumps[n] = list of standard normals"""
    k, th, sg, rho = p['k'], p['theta'], p['sigma_v'], p['rho']
    d = h / S
    v = v0
    out = []
    for n in range(N):
        if iid:
            v = v0
        I = I2 = IV = 0.0
        for j in range(S):
            a, b = z[n][j]
            e = math.sqrt(v * d) * a
            w = v + k * (th - v) * d + sg * e
            I += e
            I2 += math.sqrt(v * d) * b
            IV += v * d
            v = max(w, 0.0)
        y = p['mu'] * h - IV / 2 + rho * I + math.sqrt(1 - rho ** 2) * I2
        if jumps is not None:
            y += sum(p['mu_j'] + p['sigma_j'] * g for g in jumps[n])
        out.append(y)
    return out


def traj_2f(v0, p, N, S, h, z, jumps=None):
    """z[n][j] = (price, first variance, second variance)"""
    d = h / S
    v, w = v0
    out = []
    for n in range(N):
        I = IV = 0.0
        for j in range(S):
            a, b, c = z[n][j]
            I += math.sqrt((v + w) * d) * a
            IV += (v + w) * d
            v1 = v + p['k1'] * (p['theta1'] - v) * d + p['sigma_v1'] * math.sqrt(v * d) * b
            w1 = w + p['k2'] * (p['theta2'] - w) * d + p['sigma_v2'] * math.sqrt(w * d) * c
            v, w = max(v1, 0.0), max(w1, 0.0)
        y = p['mu'] * h - IV / 2 + I
        if jumps is not None:
            y += sum(p['mu_j'] + p['sigma_j'] * g for g in jumps[n])
        out.append(y)
    return out


def steps_of(T, S, times):
    """Euler steps: (start, length, index of the jump at its end or None)"""
    d = T / S
    out = []
    j = 0
    for i in range(S):
        t0, t = i * d, (i + 1) * d
        while j < len(times) and times[j] <= t:
            out.append((t0, times[j] - t0, j))
            t0 = times[j]
            j += 1
        if t0 < t:
            out.append((t0, t - t0, None))
    return out


def given_svvj(p, T, S, times, sizes, n, z, add=None):
    """z[i][s] = (variance noise, price noise) for step s"""
    k, th, sg, rho, mu, v0 = (p[x] for x in ('k', 'theta', 'sigma', 'rho', 'mu', 'v0'))
    st = steps_of(T, S, times)
    beta = (1 - math.exp(-k * T)) / (2 * k)
    c = (mu - th / 2) * T - (v0 - th) * beta
    for s, J in zip(times, sizes):
        if s <= T:
            c += J * (math.exp(-k * (T - s)) - 1) / (2 * k)
    out = []
    for i in range(n):
        v = v0
        IE = I = I2 = 0.0
        for m, (t0, dt, j) in enumerate(st):
            a, b = z[i][m]
            e = math.sqrt(v * dt) * a
            I += e
            IE += math.exp(k * t0) * e
            I2 += math.sqrt(v * dt) * b
            w = v + k * (th - v) * dt + sg * e
            v = max(w, 0.0)
            if j is not None:
                v += sizes[j]
        y = c + math.exp(-k * T) * IE * sg / (2 * k) + (rho - sg / (2 * k)) * I + math.sqrt(1 - rho ** 2) * I2
        if add is not None:
            y += add[i]
        out.append(y)
    return out


def given_srjd(p, T, times, sizes, n, z):
    k, th, sg = p['k'], p['theta'], p['sigma']
    st = []
    t0 = 0.0
    for s, J in zip(times, sizes):
        st.append((s - t0, J))
        t0 = s
    st.append((T - t0, 0.0))
    out = []
    for i in range(n):
        v = p['v0']
        m = 0
        for dt, J in st:
            if dt > 0:
                e = math.exp(-k * dt)
                mean = th + (v - th) * e
                var = v * sg ** 2 / k * (e - e * e) + th * sg ** 2 / (2 * k) * (1 - e) ** 2
                v = max(0.0, mean + math.sqrt(var) * z[i][m])
                m += 1
            v += J
        out.append(v)
    return out, [dt for dt, J in st if dt > 0]


SAMPLERS = {
    'r1FSV': ('mdl_1fsv.euler', q.par_1f), 'r1FSV_iid': ('mdl_1fsv.euler', q.par_1f), 'r1FSVJ': ('mdl_1fsvj.euler', q.par_1f),
    'r2FSV': ('mdl_2fsv.euler', q.par_2f), 'r2FSVJ': ('mdl_2fsvj.euler', q.par_2f),
    'rSVVJ': ('mdl_svvj.euler', q.par_hist), 'rSVIJ': ('mdl_svij.euler', q.par_hist), 'rSVCJ': ('mdl_svcj.euler', q.par_hist),
    'rSRJD': ('mdl_srjd.euler', q.par_hist)}
TRAJ = ('r1FSV', 'r1FSV_iid', 'r1FSVJ', 'r2FSV', 'r2FSVJ')
HIST = ('rSVVJ', 'rSVIJ', 'rSVCJ', 'rSRJD')


class Sampler:
    """one sampler with fixed parameters: how to call it and what each noise must give"""

    def __init__(self, name, ps, N, S, plain=False):
        rng = random.Random('smp-%s-%s' % (name, ps))
        self.name, self.N, self.S = name, N, S
        mod, par = SAMPLERS[name]
        p = par(rng) if plain else q.edged(par, sigma_v=[Fr(1, 64), 2, 0], sigma_v1=[0, 2], v0=[0, 3])(rng)
        if name == 'rSRJD' and p['v0'] == 0:
            p['v0'] = Fr(1, 2)
        if name in ('rSVVJ', 'rSVIJ', 'rSVCJ', 'rSRJD') and p['sigma'] == 0:
            p['sigma'] = Fr(1, 8)
        self.p = {k: ([float(x) for x in v] if isinstance(v, list) else float(v)) for k, v in p.items()}
        # exact binary times, so that grid points and jumps coincide when they should
        self.h = float(rng.choice([1, 1, Fr(1, 2), 2, Fr(1, 4)]))
        self.v0 = float(q.dy(rng, 0, 1.5))
        self.v0b = float(q.dy(rng, 0, 1.5))
        if plain:                     # every sample has a density: the variance stays away from 0
            self.v0, self.v0b = 0.5 + self.v0 / 2, 0.5 + self.v0b / 2
            self.h = min(self.h, 0.5)
            for n in ('lambda', 'lmbd_s'):
                if n in self.p and rng.random() < 0.4:
                    self.p[n] = rng.choice([4.0, 8.0, 16.0])
            for n in self.p:
                if n in ('k', 'k1', 'k2'):
                    self.p[n] = min(self.p[n], 1.0 + self.p[n] / 8)
                elif n.startswith('theta') or n == 'v0':
                    self.p[n] = 0.5 + self.p[n] / 4
                elif n in ('sigma', 'sigma_v', 'sigma_v1', 'sigma_v2'):
                    self.p[n] = 0.0625 + self.p[n] / 16
        elif rng.random() < 0.3:
            self.v0 = 0.0
        self.counts = [rng.choice([0, 0, 1, 2, 3]) for _ in range(max(1, N))]
        if rng.random() < 0.08:
            self.counts = [rng.choice([0, 5, 11, 24]) for _ in range(max(1, N))]
        self.short = rng.random() < 0.5                      # leave out what has the documented default
        if name in HIST:
            t, s = q.jump_history(rng, Fr(self.h), rng.choice([4] * 11 + [9]))
            self.times, self.sizes = [float(x) for x in t], [float(x) for x in s]
        self.seq = rng.choice([tuple, tuple, list]) if name != 'rSRJD' else rng.choice([tuple, list])
        self.whole = rng.random() < 0.3                      # numbers without fraction given as integers
        if self.whole and rng.random() < 0.5 and not plain:
            for n, v in self.p.items():
                if n in ('mu', 'lambda', 'mu_j', 'sigma_j', 'lmbd_s', 'mu_s', 'sigma_s'):
                    self.p[n] = float(max(1, round(v)) if v > 0 else round(v))
            self.v0, self.v0b = float(rng.choice([0, 1, 2])), float(rng.choice([0, 1, 2]))

    def args(self):
        def f(x):
            if isinstance(x, dict):
                return {n: f(v) for n, v in x.items()}
            if isinstance(x, (list, tuple)):
                return type(x)(f(v) for v in x)
            return int(x) if isinstance(x, float) and x.is_integer() else x
        return f(self._args()) if self.whole else self._args()

    def _args(self):
        p = self.p
        n = self.name
        if n in TRAJ:
            v0 = (self.v0, self.v0b) if n.startswith('r2') else self.v0
            if self.short and self.h == 1.0:
                return [v0, dict(p), self.N] + ([] if self.S == 10 else [self.S])
            return [v0, dict(p), self.N, self.S, self.h]
        s, t = self.seq(self.sizes), self.seq(self.times)
        if n == 'rSRJD':
            return [p['v0'], p['k'], p['theta'], p['sigma'], self.h, s, t, self.N]
        a = [p['v0'], p['mu'], p['k'], p['theta'], p['sigma'], p['rho'], self.h, s, t]
        if n == 'rSVIJ':
            a += [p['lmbd_s'], p['mu_s'], p['sigma_s']]
        if n == 'rSVCJ':
            a += [p['mu_s'], p['sigma_s'], p['rho_J']]
        return a + [self.N, self.S]

    def njump(self, n):
        """price-jump normals of sample n"""
        if self.name in ('r1FSVJ', 'r2FSVJ', 'rSVIJ'):
            return self.counts[n]
        if self.name == 'rSVCJ':
            return len(self.sizes)
        return 0

    def slots(self):
        """every place an elementary normal can go: (sample, step, channel) or (sample, 'J', i)"""
        out = []
        for n in range(self.N):
            if self.name in TRAJ:
                ch = 3 if self.name.startswith('r2') else 2
                out += [(n, j, c) for j in range(self.S) for c in range(ch)]
            elif self.name == 'rSRJD':
                m = len(given_srjd(self.p, self.h, self.times, self.sizes, 0, [])[1])
                out += [(n, j, 0) for j in range(m)]
            else:
                st = steps_of(self.h, self.S, self.times)
                out += [(n, j, c) for j in range(len(st)) for c in range(2) if st[j][1] > 0]
            out += [(n, 'J', i) for i in range(self.njump(n))]
        return out

    def expect(self, const, imp=()):
        """samples when every normal is `const` except those listed in imp"""
        imp = dict(imp)
        N = self.N
        g = lambda n, j, c: imp.get((n, j, c), const)
        jn = [[imp.get((n, 'J', i), const) for i in range(self.njump(n))] for n in range(N)]
        p = self.p
        if self.name in TRAJ:
            ch = 3 if self.name.startswith('r2') else 2
            z = [[tuple(g(n, j, c) for c in range(ch)) for j in range(self.S)] for n in range(N)]
            jj = jn if self.name.endswith('J') else None
            if ch == 3:
                return traj_2f((self.v0, self.v0b), p, N, self.S, self.h, z, jj)
            return traj_1f(self.v0, p, N, self.S, self.h, z, jj, self.name.endswith('iid'))
        if self.name == 'rSRJD':
            z = [[g(n, j, 0) for j in range(len(self.times) + 1)] for n in range(N)]
            return given_srjd(p, self.h, self.times, self.sizes, N, z)[0]
        st = steps_of(self.h, self.S, self.times)
        z = [[(g(n, j, 0), g(n, j, 1)) for j in range(len(st))] for n in range(N)]
        add = None
        if self.name == 'rSVIJ':
            add = [sum(p['mu_s'] + p['sigma_s'] * x for x in jn[n]) for n in range(N)]
        if self.name == 'rSVCJ':
            add = [sum(p['mu_s'] + p['rho_J'] * J + p['sigma_s'] * x for J, x in zip(self.sizes, jn[n])) for n in range(N)]
        return given_svvj(p, self.h, self.S, self.times, self.sizes, N, z, add)

    def rate(self):
        if self.name in ('r1FSVJ', 'r2FSVJ'):
            return self.p['lambda'] * self.h
        if self.name == 'rSVIJ':
            return self.p['lmbd_s'] * self.h
        return None


def close(a, b):
    """up to rounding: a variance that meets 0 may be off by 1e-16, its square root by 1e-8"""
    return len(a) == len(b) and all(abs(x - y) <= 2e-7 + 1e-9 * abs(y) for x, y in zip(a, b))


class SamplerWorld(World):
    """noise decided by the simulator; samples must be what the discretised equations give for it"""
    name = 'sampler'
    draws = True

    def describe(self, op):
        return 'sampler %s' % short(op)

    def prefetch(self):
        pass

    def draw(self, c, op, S, script):
        args = S.args()
        before = freeze(args)
        f = q.get(SAMPLERS[S.name][0] + '.' + S.name)
        fault = dict(op)

        def run():
            script.n = script.np = 0
            script.rates = []
            c.noise = script
            try:
                return f(*args)
            finally:
                c.noise = None
        res, _ = self.call(fault, run)
        if freeze(args) != before:
            raise Violation('argument-changed', '%s changed its arguments' % S.name)
        shape = getattr(res, 'shape', None)
        if shape != (S.N,):
            raise Violation('wrong-answer', '%s returned shape %r for %d samples' % (S.name, shape, S.N))
        out = [float(x) for x in res]
        if not all(math.isfinite(x) for x in out):
            raise Violation('wrong-answer', '%s returned a non-finite sample %s' % (S.name, short(out)))
        self.checked += 1
        return out

    def do(self, c, i, op):
        S = Sampler(op['s'], op['ps'], op['N'], op['S'])
        say = '%s with %s, v0=%s/%s h=%s N=%d segments=%d%s' % (
            S.name, short(S.p, 500), S.v0, S.v0b, S.h, S.N, S.S, ' jumps=%s' % (list(zip(S.times, S.sizes)),) if S.name in HIST else '')
        self.seen.add(repr((op['s'], op['ps'], op['N'], op['S'], op['kind'], op.get('z'))))
        if op['kind'] == 'const':
            sc = seams.Script(op['z'], (), S.counts)
            got = self.draw(c, op, S, sc)
            want = S.expect(op['z'])
            if not close(got, want):
                raise Violation('wrong-answer', '%s: with every standard normal = %s the samples are %s, the scheme gives %s' % (
                    say, op['z'], short(got), short(want)))
            r = S.rate()
            if r is not None and S.N:
                if len(sc.rates) != S.N or any(abs(x - r) > 1e-12 * (1 + r) for x in sc.rates):
                    raise Violation('wrong-answer', '%s: jump counts drawn with rates %s, expected %d of %s' % (say, short(sc.rates), S.N, r))
            if S.name == 'rSVCJ' and sc.n == 0 and S.N and S.sizes:
                raise Violation('wrong-answer', '%s drew no noise' % say)
            return
        # impulses: one (or two) of the normals differ from the rest
        base, z = op['base'], op['z']
        sc = seams.Script(base, (), S.counts)
        zero = self.draw(c, op, S, sc)
        D = sc.n
        slots = S.slots()
        want0 = S.expect(base)
        if not close(zero, want0):
            raise Violation('wrong-answer', '%s: with every standard normal = %s the samples are %s, the scheme gives %s' % (say, base, short(zero), short(want0)))
        op = dict(op, fault=None)
        if op['kind'] == 'single':
            want = [S.expect(base, {s: z}) for s in slots]
            ks = range(D) if D <= 250 else sorted(random.Random('pos-%s' % (op['ps'],)).sample(range(D), 250))
            got = [self.draw(c, op, S, seams.Script(base, {k: z}, S.counts)) for k in ks]
            left = list(want)
            for g in got:
                for x in left:
                    if close(g, x):
                        left.remove(x)
                        break
                else:
                    if not close(g, zero) and not any(close(g, x) for x in want):
                        raise Violation('wrong-answer', '%s: moving one normal from %s to %s gives %s, which no single normal of the scheme gives' % (
                            say, base, z, short(g)))
            left = [x for x in left if not close(x, zero)]
            if left and D <= 250:
                raise Violation('wrong-answer', '%s: no normal has the effect %s that one of the scheme has' % (say, short(left[0])))
        else:
            rng = random.Random('pair-%s' % (op['ps'],))
            want = None
            for _ in range(6):
                if D < 2:
                    return
                a, b = rng.sample(range(D), 2)
                z2 = -z if rng.random() < 0.5 else z * 0.75
                g = self.draw(c, op, S, seams.Script(base, {a: z, b: z2}, S.counts))
                cand = [zero]
                for s in slots:
                    cand.append(S.expect(base, {s: z}))
                    cand.append(S.expect(base, {s: z2}))
                if any(close(g, x) for x in cand):
                    continue
                if not any(close(g, S.expect(base, {s: z, t: z2})) for s in slots for t in slots if s != t):
                    raise Violation('wrong-answer', '%s: moving two normals gives %s, which no two normals of the scheme give' % (say, short(g)))


class RandomWorld(World):
    """real generators under simulated seeds: streams are fresh, shared fairly, and restartable"""
    name = 'random'
    draws = True

    def setup(self):
        seams.reseed(self.plan['seed'] & 0x7fffffff)
        self.samples = {}
        seams.watch(True)
        for m, _ in SAMPLERS.values():
            __import__('ajdmom.' + m)

    def reseeded(self, z):
        """the caller re-seeds the global generator: what follows repeats earlier draws because it asked for it"""
        import numpy as np
        np.random.seed(z)
        seams.watch(True)

    def fresh(self, op, what):
        if seams.WATCH.hits:
            raise Violation('stream-rewound', '%s: %s drew again from a position of the random stream that had been used (%d times)' % (
                what, seams.WATCH.hits[0], len(seams.WATCH.hits)))

    def incarnations(self, c, op, S):
        """the program is started again and again, each time with other randomness from the system but the same clock:
        no two of these processes may draw from the same stream"""
        mod = 'ajdmom.' + SAMPLERS[S.name][0]
        mine = lambda: {n: m for n, m in sys.modules.items() if n == 'ajdmom' or n.startswith('ajdmom.')}
        saved = mine()
        out = {}
        try:
            for e in range(op['again']):
                seams.reseed(op['z'] * 1000 + e)
                for n in mine():
                    del sys.modules[n]
                __import__(mod)
                f = getattr(sys.modules[mod], S.name)
                self.sim.count('restarts')
                val, _ = self.call({}, lambda: f(*S.args()))
                val = tuple(float(x) for x in val)
                self.fresh(op, '%s after a restart of the process' % S.name)
                if val in out:
                    raise Violation('sample-repeated', '%s gave the samples %s in two processes (%d and %d)' % (S.name, short(val), out[val], e))
                out[val] = e
        finally:
            for n in mine():
                del sys.modules[n]
            sys.modules.update(saved)
        self.checked += 1
        seams.reseed(self.plan['seed'] & 0x7fffffff)
        seams.watch(True)

    def describe(self, op):
        return 'sampler %s' % short(op)

    def one(self, c, op, S, fault=True):
        args = S.args()
        before = freeze(args)
        f = q.get(SAMPLERS[S.name][0] + '.' + S.name)
        c.drawn = []
        res, _ = self.call(op if fault else {}, lambda: f(*args))
        n = sum(k for _, k in c.drawn)
        c.drawn = None
        if freeze(args) != before:
            raise Violation('argument-changed', '%s changed its arguments' % S.name)
        out = [float(x) for x in res]
        if len(out) != S.N or not all(math.isfinite(x) for x in out):
            raise Violation('wrong-answer', '%s returned %s for %d samples' % (S.name, short(out), S.N))
        self.checked += 1
        return out, n

    def do(self, c, i, op):
        import numpy as np
        S = Sampler(op['s'], op['ps'], op['N'], op['S'], True)
        self.seen.add(repr(sorted(op.items(), key=str)))
        alone = len(self.plan['callers']) == 1
        if op['kind'] == 'restarts' and alone:
            return self.incarnations(c, op, S)
        if op['kind'] == 'replay' and alone and S.name in TRAJ:
            self.reseeded(op['z'])
            a, _ = self.one(c, op, S, False)
            st1 = np.random.get_state()[1].tolist(), np.random.get_state()[2]
            self.reseeded(op['z'])
            b, _ = self.one(c, op, S, False)
            st2 = np.random.get_state()[1].tolist(), np.random.get_state()[2]
            if a != b or st1 != st2:
                raise Violation('not-repeatable', '%s: the same seed gave %s and then %s' % (S.name, short(a), short(b)))
            self.reseeded(op['z'] + 1)
            d, _ = self.one(c, op, S, False)
            self.fresh(op, self.describe(op))
            if d == a:
                raise Violation('seed-ignored', '%s: a different seed gave the same samples %s' % (S.name, short(a)))
            return
        if op['kind'] == 'callerstream' and alone:
            # the caller's own draws before and after a call must stay independent of it
            self.reseeded(op['z'])
            x = [float(v) for v in np.random.normal(size=4)]
            self.one(c, op, S, False)
            y = [float(v) for v in np.random.normal(size=4)]
            self.one(c, op, S, False)
            w = [float(v) for v in np.random.normal(size=4)]
            self.fresh(op, self.describe(op))
            if len({tuple(x), tuple(y), tuple(w)}) != 3:
                raise Violation('stream-rewound', '%s: the caller drew %s again after a call' % (S.name, short(y)))
            return
        out, n = self.one(c, op, S)
        if n < 0:
            return
        where = self.samples.setdefault(S.name, {})
        for x in out:
            if x in where:
                raise Violation('sample-repeated', '%s returned the sample %r twice (%s and %s)' % (S.name, x, where[x], [c.cid, i]))
            where[x] = [c.cid, i]
        self.fresh(op, self.describe(op))


# ================================================================== exports
NEST = {'1f': '1f', '2f': '2f', 'svvj_cm': 'svvj_cm', 'svcj_m2': 'svcj_m2', 'srjd2': 'srjd2', 'ito': 'ito', 'svij_cm': 'svij_cm', 'iez': 'iez',
        '2fjc': '2fjc', 'itos': 'itos', 'joint6': 'joint6', 'greek': 'greek'}


def split_row(s):
    """comma separated cells, commas inside brackets belong to the cell"""
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '([':
            depth += 1
        elif ch in ')]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def read_txt(path):
    with seams._real_open(path, encoding='utf-8') as f:
        text = f.read()
    if not text.endswith('\n'):
        raise Mismatch('the last line is cut off: %r' % text[-60:])
    lines = text.split('\n')[:-1]
    m = re.fullmatch(r'(\(.*\)): value\(in fraction\)', lines[0])
    if not m:
        raise Mismatch('title line is %r' % lines[0])
    kf = ast.literal_eval(m.group(1))
    d = {}
    for ln in lines[1:]:
        m = re.fullmatch(r'(\(.*\)): \((-?\d+),(\d+)\)', ln)
        if not m:
            raise Mismatch('line %r cannot be read back' % ln)
        k = ast.literal_eval(m.group(1))
        if k in d:
            raise Mismatch('term %r is written twice' % (k,))
        d[k] = Fr(int(m.group(2)), int(m.group(3)))
    return kf, d


def csv_flat(kf, key):
    out = []
    sub = q.FZ4 if 'p_{2:n}' in kf else q.FZ2
    for n, e in zip(kf, key):
        if 'l_{1:n}' in kf and n in sub:
            out += list(e)
        else:
            out.append(e)
    return tuple(out)


def csv_title(kf, L):
    out = []
    for n in kf:
        if 'l_{1:n}' in kf and n in q.FZ4 + q.FZ2:
            ch, a = n[0], int(n[3])
            out += ['%s%d' % (ch, j) for j in range(a, L + 1)]
        else:
            out.append(n)
    return ','.join(out) + ',num,den'


def read_csv(path, kf, L):
    with seams._real_open(path, encoding='utf-8') as f:
        text = f.read()
    if not text.endswith('\n'):
        raise Mismatch('the last line is cut off: %r' % text[-60:])
    lines = text.split('\n')[:-1]
    if lines[0] != csv_title(kf, L):
        raise Mismatch('title line is %r, expected %r' % (lines[0], csv_title(kf, L)))
    d = {}
    for ln in lines[1:]:
        cells = [ast.literal_eval(x.strip()) for x in split_row(ln)]
        k = tuple(cells[:-2])
        if k in d:
            raise Mismatch('term %r is written twice' % (k,))
        if not isinstance(cells[-1], int) or cells[-1] <= 0:
            raise Mismatch('denominator %r' % (cells[-1],))
        d[k] = Fr(cells[-2], cells[-1])
    return d


class ExportWorld(World):
    name = 'export'
    prints = True

    def setup(self):
        base = os.environ.get('AJDSIM_SCRATCH') or '/tmp'
        self.dir = os.path.join(base, 'ajdsim-%d' % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, 'sub', 'x.d'))
        seams.SCRATCH[0] = self.dir
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        self.shared = {}
        self.files = {}

    def teardown(self):
        os.chdir(self.cwd)
        seams.SCRATCH[0] = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def describe(self, op):
        return 'export %s' % short(op)

    def formula(self, op):
        k = (op['kf'], op['seed'], op['L'], op['n'])
        if k not in self.shared:
            p = {'jumpsize': (0.25, 0.5), 'jumptime': (0.25, 0.5)}
            if op['n'] == 0:
                from ajdmom.poly import Poly
                P = Poly()
                P.set_keyfor(q.KF[op['kf']])
            else:
                P = q.rand_poly(q.KF[op['kf']], op['seed'], p, nterm=op['n'], jlen=op['L'] if op['L'] >= 0 else None)
            self.shared[k] = (P, freeze(P))
        return self.shared[k]

    def do(self, c, i, op):
        if op['kind'] == 'sub':
            return self.do_sub(c, i, op)
        P, was = self.formula(op)
        kf, items = was[1], was[2]
        ext = op['fmt']
        where = zlib.crc32(('where-%s-%s' % (op['seed'], op['n'])).encode()) % 6     # a file below the working directory or elsewhere,
        stem = os.path.join(self.dir, ['', 'sub', 'sub/x.d'][where // 2], 'c%d-%s' % (c.cid, op['file']))
        path = stem + '.' + ext
        self.files.pop(path, None)
        given = path if op['suffix'] else stem
        if where % 2:
            given = os.path.relpath(given, self.dir)                                 # named relative to it
        stale = op.get('stale')
        if stale:
            with seams._real_open(path, 'w') as f:
                f.write('stale content\n' * stale)
        levels = {len(k[kf.index('l_{1:n}')]) for k in items} if 'l_{1:n}' in kf else {0}
        refuse = ext == 'csv' and len(levels) > 1
        before = None
        if os.path.exists(path):
            with seams._real_open(path, 'rb') as f:
                before = f.read()
        disk = op.get('disk')
        d = None
        c.__dict__['out'] = []
        f = lambda: (P.write_to_txt if ext == 'txt' else P.write_to_csv)(given)
        if op.get('crash'):
            # the process is killed on the way; a new one finds the files as they are now and starts over
            at, byte = op['crash']
            c.disk = seams.Disk('crash', byte, 64 if byte % 2 else 8192) if byte >= 0 else None
            try:
                said = self.sim.crash_run([at] if at else None, f)
            finally:
                c.disk = None
            if said and not refuse:
                self.readable(op, path, ext, kf, items, levels, 'was killed after it announced completion: ')
        if disk:
            d = c.disk = seams.Disk(*disk)
        try:
            _, err = self.call(op, f, ok=(Exception,))
        finally:
            c.disk = None
        said = ''.join(c.out)
        if freeze(P) != was:
            raise Violation('argument-changed', '%s changed the formula being written' % self.describe(op))
        broke = d is not None and any(k.split(':')[0] in ('open', 'write', 'close') for k in d.fired)
        if refuse:
            if err is None:
                raise Violation('bad-export-accepted', '%s: terms of %s summation levels were written to one csv' % (self.describe(op), sorted(levels)))
            now = None
            if os.path.exists(path):
                with seams._real_open(path, 'rb') as g:
                    now = g.read()
            if now != before:
                raise Violation('refused-export-wrote', '%s was refused but changed the file' % self.describe(op))
            if 'complete' in said:
                raise Violation('false-completion', '%s was refused but announced completion' % self.describe(op))
            self.checked += 1
            self.seen.add(repr(sorted(op.items(), key=str)))
            return
        if broke:
            if err is None:
                raise Violation('failure-hidden', '%s: the disk reported %s but the export returned normally' % (self.describe(op), d.fired))
            if not isinstance(err, OSError) and not os_cause(err):
                raise Violation('failure-hidden', '%s: the disk reported %s but the export raised %r' % (self.describe(op), d.fired, err))
            if 'complete' in said:
                raise Violation('false-completion', '%s failed (%r) but announced completion' % (self.describe(op), err))
            self.checked += 1
            c.__dict__['out'] = []
            _, err = self.call({}, f, ok=(Exception,))           # the disk has recovered
        if err is not None:
            raise Violation('exception', '%s raised %r' % (self.describe(op), err))
        if not os.path.exists(path):
            raise Violation('wrong-answer', '%s returned but %s does not exist (directory: %s)' % (self.describe(op), path, sorted(os.listdir(self.dir))[:8]))
        self.readable(op, path, ext, kf, items, levels)
        self.files[path] = (ext, kf, items, min(levels) if levels else 0)
        self.checked += 1
        self.seen.add(repr(sorted(op.items(), key=str)))

    def finish(self):
        super().finish()
        for path, (ext, kf, items, L) in self.files.items():     # nobody else touched a finished export
            try:
                self.read_back(path, ext, kf, items, L)
            except Mismatch as e:
                raise Violation('export-disturbed', '%s was complete and no longer is: %s' % (os.path.basename(path), e))

    def readable(self, op, path, ext, kf, items, levels, how=''):
        try:
            self.read_back(path, ext, kf, items, min(levels) if levels else 0)
        except Mismatch as e:
            raise Violation('wrong-answer', '%s: %s%s' % (self.describe(op), how, e))
        except Exception as e:
            raise Violation('wrong-answer', '%s: %sthe file cannot be read back (%s: %s)' % (self.describe(op), how, type(e).__name__, e))

    def read_back(self, path, ext, kf, items, L):
        if ext == 'txt':
            k2, d = read_txt(path)
            if tuple(k2) != tuple(kf):
                raise Mismatch('title names %r, formula has %r' % (k2, kf))
            want = {k: Fr(v) for k, v in items.items()}
        else:
            d = read_csv(path, kf, L)
            want = {csv_flat(kf, k): Fr(v) for k, v in items.items()}
        if d != want:
            miss = [k for k in want if d.get(k) != want[k]]
            extra = [k for k in d if k not in want]
            raise Mismatch('file holds %d terms, formula %d; differing %s, extra %s' % (len(d), len(want), short(miss[:2]), short(extra[:2])))

    def do_sub(self, c, i, op):
        """split by summation level and write every part into the working directory"""
        from ajdmom.mdl_svvj import cond2_cmom as m
        p = {'jumpsize': (0.25,), 'jumptime': (0.25,)}
        P = q.rand_poly(q.KF['svvj_cm'], op['seed'], p, nterm=max(1, op['n']))
        was = freeze(P)
        nth = 'c%dn%d' % (c.cid, i)
        d = None
        if op.get('disk'):
            d = c.disk = seams.Disk(*op['disk'])
        c.__dict__['out'] = []
        try:
            _, err = self.call(op, lambda: m.write_to_subpolys(P, nth), ok=(OSError,) if d else ())
        finally:
            c.disk = None
        if freeze(P) != was:
            raise Violation('argument-changed', 'write_to_subpolys changed the formula')
        if d is not None and any(k.split(':')[0] in ('open', 'write', 'close') for k in d.fired):
            if err is None:
                raise Violation('failure-hidden', '%s: the disk reported %s but the export returned normally' % (self.describe(op), d.fired))
            self.call({}, lambda: m.write_to_subpolys(P, nth))
        files = sorted(f for f in os.listdir(self.dir) if '-%s-' % nth in f)
        try:
            got = {}
            for n, fn in enumerate(files):
                if fn != 'svvj-cond-cmoment-%s-formula-%d.txt' % (nth, n):
                    raise Mismatch('unexpected file %s' % fn)
                kf, dd = read_txt(os.path.join(self.dir, fn))
                for k, v in dd.items():
                    full = k[:6] + ((), (), (), ()) + k[6:] if len(kf) == len(was[1]) - 4 else k
                    got[full] = v
            want = {(-k[0],) + k[1:]: Fr(v) for k, v in was[2].items()}
            if got != want:
                raise Mismatch('the files hold %d of %d terms' % (len(got), len(want)))
        except Mismatch as e:
            raise Violation('wrong-answer', '%s: %s' % (self.describe(op), e))
        self.checked += 1
        self.seen.add(repr(sorted(op.items(), key=str)))


def os_cause(e):
    n = 0
    while e is not None and n < 20:
        if isinstance(e, OSError):
            return True
        e = e.__cause__ or e.__context__
        n += 1
    return False


# ================================================================== refusals
def _neg(rng, n):
    a = [rng.randint(0, 3) for _ in range(n)]
    a[rng.randrange(n)] = -rng.randint(1, 3)
    return a


def poly_of(kf, seed):
    return q.rand_poly(kf, seed, {'jumpsize': (0.25, 0.5)})


def refusals():
    """(name, make(rng) -> (callable, operands that must stay as they are), exceptions allowed)"""
    out = []
    V, NI, EX = (ValueError,), (NotImplementedError, TypeError), (Exception,)

    def two(rng):
        k1, k2 = rng.sample(['1f', '1fc', '1fj', 'svvj_cm', 'iez', 'joint6', 'srjd_v0'], 2)
        A, B = poly_of(q.KF[k1], rng.randint(1, 99)), poly_of(q.KF[k2], rng.randint(1, 99))
        r = rng.random()
        if r < 0.25:                  # same width, one name differs
            B = poly_of(q.KF[k1], rng.randint(1, 99))
            names = list(B.keyfor)
            names[rng.randrange(len(names))] += "'"
            B.set_keyfor(names)
        elif r < 0.45:                # same names, other order
            B = poly_of(q.KF[k1], rng.randint(1, 99))
            B.set_keyfor(B.keyfor[1:] + B.keyfor[:1])
        elif r < 0.6:                 # one name fewer / more
            B = poly_of(q.KF[k1], rng.randint(1, 99))
            B.set_keyfor(B.keyfor[:-1] if rng.random() < 0.5 else B.keyfor + ('z',))
        elif r < 0.7:                 # not a formula at all
            B = dict(A.data)
        return A, B
    for nm, f in (('+', lambda A, B: A + B), ('-', lambda A, B: A - B), ('*', lambda A, B: A * B), ('merge', lambda A, B: A.merge(B))):
        def mk(rng, f=f):
            A, B = two(rng)
            return (lambda: f(A, B)), [A, B]
        out.append(('mismatched ' + nm, mk, NI))

    def pw(rng):
        A = poly_of(q.KF['1f'], rng.randint(1, 99))
        n = rng.choice([0, -1, -2, -7])
        return (lambda: A ** n), [A]
    out.append(('power below 1', pw, NI))

    def neg(path, n, tup=False, par=False, exc=V, tail=()):
        def mk(rng):
            a = _neg(rng, n)
            return (lambda: q.get(path)(*a, *tail)), []
        out.append(('negative order ' + path, mk, exc))
    for path, n in (('ito_mom.moment_IEII', 3), ('itos_mom.moment_IEI_IEII', 5), ('ito_cond_mom.moment_IEII', 3), ('cpp_mom.mnorm', 1),
                    ('cpp_mom.mcpp', 1), ('cpp_mom.cmcpp', 1), ('mdl_svcj.cond_mom.moment_y', 1), ('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', 6),
                    ('mdl_svcj.cmom.cmoment_y', 1), ('mdl_svcj.ieziziz_mom.moment_ieziziz', 3), ('mdl_svcj.cond_cmom.cmoment_y', 1),
                    ('mdl_srjd.cond_ie_iez_mom.moment_ie', 1), ('mdl_srjd.cond_ie_iez_mom.moment_ie_iez', 2), ('mdl_srjd.iez_cmom.cmoment_IEZ', 1),
                    ('mdl_srjd.cond_ie_iez_cmom.moment_ie', 1), ('mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez', 2), ('mdl_srjd.cmom.cmoment_v', 1),
                    ('mdl_srjd.mom.moment_v', 1), ('mdl_srjd.iez_mom.moment_IEZ', 1)):
        neg(path, n)
    def helper(path, make, n, exc=V):
        """a helper that the library need not have; where it has it, the refusal is documented"""
        def mk(rng):
            f = q.optional(path, n)
            a = make(rng)
            return (f and (lambda: f(*a))), []
        out.append(('bad request to helper ' + path, mk, exc))
    m = lambda rng: -rng.randint(1, 4)
    helper('ito_mom.int_et', lambda r: [r.randint(-3, 4), m(r)], 2)
    helper('itos_mom.int_et', lambda r: [r.randint(0, 4), r.randint(0, 3), m(r)], 3)
    helper('ito_cond_mom.int_et_fZ', lambda r: [r.randint(-3, 4), m(r), r.randint(0, 3)], 3)
    helper('mdl_svcj.ieziziz_mom.moment_ejjj', lambda r: _neg(r, 3), 3)
    helper('mdl_srjd.iez_mom.moment_EJ', lambda r: [m(r)], 1)
    for mod, kf, par in (('mdl_1fsv.mom', '1f', q.par_1f), ('mdl_1fsv.cmom', '1fc', q.par_1f), ('mdl_1fsvj.mom', '1fj', q.par_1f),
                         ('mdl_1fsvj.cmom', '1fjc', q.par_1f), ('mdl_2fsv.mom', '2f', q.par_2f), ('mdl_2fsv.cmom', '2fc', q.par_2f),
                         ('mdl_2fsvj.mom', '2fj', q.par_2f), ('mdl_2fsvj.cmom', '2fjc', q.par_2f)):
        def mk(rng, mod=mod, kf=kf, par=par):
            A = poly_of(q.KF[kf], rng.randint(1, 99))
            if rng.random() < 0.2:
                A = 0 * A
            w = rng.choice(['', 'kappa', 'K', 'h', 'v0', 'sigma', 'theta3', 'k ', 'lam'])
            return (lambda: q.get(mod + '.dpoly')(A, w)), [A]
        out.append(('unknown parameter ' + mod + '.dpoly', mk, V))

    def odd(rng):
        P = poly_of(q.KF['1f'], rng.randint(1, 99))
        k = list(sorted(P.data)[0])
        k[7] = rng.choice([1, 3, 5])
        P[tuple(k)] = Fr(1, 3)
        return (lambda: q.get('utils.simplify_rho')(P, 7)), [P]
    out.append(('odd power of the square root', odd, EX))

    def tp(rng):
        P = poly_of(q.KF['cond1f'], rng.randint(1, 99))
        t = rng.choice([0, 4, -1, 7])
        return (lambda: q.get('mdl_1fsv.cond_cmom.simplify')(P, t)), [P]
    out.append(('unknown rewriting', tp, EX))

    def mu(rng):
        P = poly_of(q.KF['svcj_un'], rng.randint(1, 99))
        k = list(sorted(P.data)[0])
        k[3] = rng.choice([1, 2])
        P[tuple(k)] = Fr(1, 3)
        return (lambda: q.get('mdl_svcj.cmom.remove_mu_column')(P)), [P]
    out.append(('dropping a mean that is present', mu, EX))
    return out


REFUSE = refusals()


class RefuseWorld(QueryWorld):
    """bad requests among good ones: refused as documented, nothing else disturbed"""
    name = 'refuse'

    def describe(self, op):
        return REFUSE[op['r']][0] if 'r' in op else super().describe(op)

    def do(self, c, i, op):
        if 'r' not in op:
            return super().do(c, i, op)
        name, mk, exc = REFUSE[op['r']]
        f, operands = mk(random.Random('ref-%s' % op['ps']))
        c.may_print = False
        if f is None:
            return
        was = [freeze(x) for x in operands]

        def same(op=None):
            for x, w in zip(operands, was):
                if freeze(x) != w:
                    raise Violation('argument-changed', '%s: an operand changed to %s, was %s' % (name, short(freeze(x)), short(w)))
        self.after_interrupt = same
        val, err = self.call(op, f, ok=(Exception,))
        if err is None:
            raise Violation('bad-request-accepted', '%s (case %s) was answered with %s' % (name, op['ps'], short(freeze(val))))
        if not isinstance(err, exc):
            raise Violation('wrong-refusal', '%s (case %s) raised %r, documented %s' % (name, op['ps'], err, '/'.join(t.__name__ for t in exc)))
        same()
        self.checked += 1
        self.seen.add(repr((op['r'], op['ps'])))


WORLDS = {w.name: w for w in (QueryWorld, AlgebraWorld, SamplerWorld, RandomWorld, ExportWorld, RefuseWorld)}
