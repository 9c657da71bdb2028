"""Sources of nondeterminism owned by the simulator: randomness, files, standard output.

Installed before the library is imported.  Outside a simulated call they pass through.
"""
import builtins
import errno
import io
import os
import sys

import numpy as np

import kernel

_real_open = io.open
_real_rng = np.random.default_rng
_np = {n: getattr(np.random, n) for n in ('normal', 'standard_normal', 'randn', 'poisson', 'noncentral_chisquare', 'exponential', 'uniform')}
SEED = [0, 0]                        # [simulation seed, generators created so far]


# ------------------------------------------------------------------ randomness
def noise():
    s = kernel.ACTIVE
    c = s.cur if s is not None else None
    return getattr(c, 'noise', None) if c is not None else None


class Script:
    """noise decided by the simulator: every elementary draw, counted, is what the script says"""

    def __init__(self, const=0.0, impulses=(), counts=()):
        self.const = const
        self.imp = dict(impulses)
        self.counts = list(counts)
        self.n = 0
        self.np = 0
        self.rates = []
        self.scales = []

    def z(self):
        v = self.imp.get(self.n, self.const)
        self.n += 1
        return v

    def fill(self, size, f):
        if size is None:
            return f()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        out = np.empty(shape)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = f()
        return out

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        if np.ndim(loc) or np.ndim(scale):
            return np.asarray(loc) + np.asarray(scale) * self.fill(size, self.z)
        if not scale >= 0:
            raise ValueError('scale < 0')
        return self.fill(size, lambda: loc + scale * self.z())

    def standard_normal(self, size=None, *a, **k):
        return self.fill(size, self.z)

    def randn(self, *shape):
        return self.fill(shape or None, self.z)

    def poisson(self, lam=1.0, size=None):
        if not lam >= 0:
            raise ValueError('lam < 0')

        def f():
            self.rates.append(float(lam))
            c = self.counts[self.np % len(self.counts)] if self.counts else 0
            self.np += 1
            return c
        if size is None:
            return f()
        return self.fill(size, f).astype(int)

    def noncentral_chisquare(self, df, nonc, size=None):
        if not df > 0 or not nonc >= 0:
            raise ValueError('df <= 0 or nonc < 0')
        return self.fill(size, lambda: max(0.0, df + nonc + np.sqrt(2 * (df + 2 * nonc)) * self.z()))


SCRIPTED = ('normal', 'standard_normal', 'randn', 'poisson', 'noncentral_chisquare')


class SimGenerator:
    """what default_rng() hands out: real bit generator seeded by the simulator, or the script"""

    def __init__(self, seed=None):
        if seed is None:
            SEED[1] += 1
            seed = [SEED[0] & 0xffffffff, SEED[1]]
        self._g = _real_rng(seed)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        s = noise()
        if s is not None and n in SCRIPTED:
            return getattr(s, n)
        g = self._g
        f = getattr(g, n)
        if callable(f) and n in DRAWS:
            def draw(*a, **k):
                if WATCH is None:
                    r = f(*a, **k)
                else:
                    b = _gen_state(g)
                    r = f(*a, **k)
                    WATCH.note(b, n, r, lambda: _gen_state(g))
                record(n, r)
                return r
            return draw
        return f


# stream positions from which something was drawn: drawing from one again repeats earlier randomness
class Watch:
    def __init__(self):
        self.seen = set()
        self.hits = []

    def note(self, before, what, r, now):
        if what == 'poisson' and now() == before or np.size(r) == 0:
            return                                     # nothing was taken from the stream
        if before in self.seen:
            self.hits.append(what)
        self.seen.add(before)


WATCH = None


def watch(on):
    global WATCH
    WATCH = Watch() if on else None


def _gen_state(g):
    s = g.bit_generator.state
    s = s.get('state', s)
    return (s['state'], s['inc']) if 'inc' in s else repr(s)


def _glob_state():
    s = np.random.get_state()
    return s[1][:3].tobytes(), s[2], s[3], s[4]


DRAWS = ('normal', 'standard_normal', 'randn', 'poisson', 'noncentral_chisquare', 'exponential', 'uniform', 'random', 'gamma', 'chisquare')


def record(n, r):
    s = kernel.ACTIVE
    c = s.cur if s is not None else None
    d = getattr(c, 'drawn', None) if c is not None else None
    if d is not None:
        d.append((n, np.size(r)))


def reseed(seed):
    """give every generator the library holds a stream derived from the simulation seed"""
    SEED[0], SEED[1] = seed, 0
    for i, g in enumerate(_made):
        g._g = _real_rng([seed & 0xffffffff, 1000 + i])
    np.random.seed(seed & 0xffffffff)


def own_seed():
    SEED[1] += 1
    return [SEED[0] & 0xffffffff, SEED[1]]


def _method(cls, n):
    real = getattr(cls, n)

    def draw(self, *a, **k):
        s = noise()
        if s is not None and n in SCRIPTED:
            return getattr(s, n)(*a, **k)
        if WATCH is None:
            r = real(self, *a, **k)
        else:
            b = self.sim_state()
            r = real(self, *a, **k)
            WATCH.note(b, n, r, self.sim_state)
        record(n, r)
        return r
    return draw


_State, _Gen = np.random.RandomState, np.random.Generator
_Bits = {n: getattr(np.random, n) for n in ('PCG64', 'PCG64DXSM', 'MT19937', 'Philox', 'SFC64') if hasattr(np.random, n)}


class RandomState(_State):
    """a generator of the library's own: watched, and seeded by the simulator where the system would"""

    def __init__(self, seed=None):
        super().__init__(own_seed() if seed is None else seed)

    def sim_state(self):
        s = self.get_state()
        return s[1][:3].tobytes(), s[2], s[3], s[4]


class Generator(_Gen):
    def sim_state(self):
        return _gen_state(self)


for _c, _b in ((RandomState, _State), (Generator, _Gen)):
    for _n in DRAWS:
        if hasattr(_b, _n):
            setattr(_c, _n, _method(_b, _n))


def _bits(cls):
    class Bits(cls):
        def __init__(self, seed=None, *a, **k):
            super().__init__(own_seed() if seed is None and not a and not k else seed, *a, **k)
    Bits.__name__ = Bits.__qualname__ = cls.__name__
    return Bits


_made = []


def _factory(seed=None):
    g = SimGenerator(seed)
    if kernel.ACTIVE is None:
        _made.append(g)
    return g


def _wrap(name):
    real = _np[name]

    def f(*a, **k):
        s = noise()
        if s is not None and name in SCRIPTED:
            return getattr(s, name)(*a, **k)
        if WATCH is None:
            r = real(*a, **k)
        else:
            b = _glob_state()
            r = real(*a, **k)
            WATCH.note(b, name, r, _glob_state)
        record(name, r)
        return r
    f.__name__ = name
    return f


# ------------------------------------------------------------------ files
SCRATCH = [None]


class Disk:
    """state of the simulated disk for one file: what will go wrong, and what did"""

    def __init__(self, kind=None, after=0, buf=8192, err='ENOSPC', short=0):
        self.kind, self.after, self.buf, self.err, self.short = kind, after, buf, err, short
        self.fired = {}
        self.written = 0

    def hit(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1
        s = kernel.ACTIVE
        if s is not None:
            s.count('disk:' + k)
            s.mix('D', k)

    def error(self, path):
        n = getattr(errno, self.err)
        return OSError(n, os.strerror(n), path)


class RawFile(io.RawIOBase):
    def __init__(self, path, mode, d):
        super().__init__()
        self.d, self.path = d, path
        self.f = io.FileIO(path, mode)
        self.name = path
        self.mode = mode
        self.turn = 0

    def readable(self):
        return False

    def writable(self):
        return True

    def seekable(self):
        return self.f.seekable()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def fileno(self):
        return self.f.fileno()

    def write(self, b):
        d = self.d
        data = bytes(b)
        if d.kind == 'eintr':
            self.turn += 1
            if self.turn % 2:
                d.hit('eintr')
                raise InterruptedError(errno.EINTR, 'interrupted')
        if d.kind in ('short', 'eintr') and len(data) > 1 and d.short:
            if len(data) > d.short:
                d.hit('short')
            data = data[:d.short]
        if d.kind == 'write':
            room = d.after - d.written
            if room <= 0:
                d.hit('write:' + d.err)
                raise d.error(self.path)
            data = data[:room]
        if d.kind == 'crash' and d.written + len(data) > d.after:
            self.f.write(data[:d.after - d.written])
            kernel.ACTIVE.die()
        n = self.f.write(data)
        d.written += n
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.f.close()
            if self.d.kind == 'close':
                self.d.hit('close:' + self.d.err)
                raise self.d.error(self.path)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    try:
        path = os.path.abspath(os.fspath(file)) if not isinstance(file, int) else None
    except TypeError:
        path = None
    d = None
    a = kernel.ACTIVE
    if a is not None and a.cur is not None and path and SCRATCH[0] and path.startswith(SCRATCH[0] + os.sep):
        d = getattr(a.cur, 'disk', None)           # the running caller's disk, temporary files included
    if d is None or not set(mode) & set('wax') or opener is not None or '+' in mode:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if d.kind == 'open':
        d.hit('open:' + d.err)
        raise d.error(path)
    raw = RawFile(path, mode.replace('b', '').replace('t', ''), d)
    buf = io.BufferedWriter(raw, d.buf)
    if 'b' in mode:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))


class Out(io.TextIOBase):
    """standard output of the simulated process, kept per caller"""

    def __init__(self):
        self.all = []

    def write(self, s):
        a = kernel.ACTIVE
        c = a.cur if a is not None else None
        if c is not None:
            c.__dict__.setdefault('out', []).append(s)
        else:
            self.all.append(s)
        return len(s)

    def writable(self):
        return True

    def flush(self):
        pass


def install():
    np.random.default_rng = _factory
    np.random.RandomState, np.random.Generator = RandomState, Generator
    for n, c in _Bits.items():
        setattr(np.random, n, _bits(c))
    for n in _np:
        setattr(np.random, n, _wrap(n))
    builtins.open = sim_open
    io.open = sim_open
    kernel.patch_locks()
