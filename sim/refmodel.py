"""Reference model: exact moments of polynomial jump-diffusions.

Independent of the code under test.  A process X with polynomial drift, covariance and
jump kernel maps polynomials to polynomials under its generator G, hence
    E[f(X_h) | X_0 = x] = sum_j h^j/j! (G^j f)(x).
The series is summed in high precision (mpmath) until terms vanish.  Jump histories that are
given (times, sizes) are handled by propagating backwards between events and shifting the
polynomial at each event.
"""
from math import comb, factorial
from fractions import Fraction

from mpmath import mp, mpf

mp.dps = 60
_TINY = mpf(10) ** (-50)


def M(x):
    """exact conversion of an int / Fraction / decimal string / float to mpf"""
    if isinstance(x, Fraction):
        return mpf(x.numerator) / mpf(x.denominator)
    if isinstance(x, int):
        return mpf(x)
    return mpf(x)


# ---------------------------------------------------------------- polynomials
def padd(a, b, c=1):
    for k, v in b.items():
        a[k] = a.get(k, 0) + c * v
    return a


class Process:
    """names: tuple of variable names
    drift: {var: {exponents: coef}}
    cov: {(var, var): {exponents: coef}}   (unordered pair, var<=var listed once)
    jumps: list of (intensity, {jumping variables}, moment(beta)->{exponents: coef})
    """

    def __init__(self, names, drift, cov, jumps=()):
        self.names = tuple(names)
        self.ix = {n: i for i, n in enumerate(self.names)}
        self.n = len(self.names)
        self.drift = [(self.ix[a], self._p(p)) for a, p in drift.items()]
        self.cov = [(self.ix[a], self.ix[b], self._p(p)) for (a, b), p in cov.items()]
        self.jumps = jumps
        self._g = {}

    def _p(self, p):
        return {self._e(k): M(v) for k, v in p.items() if v != 0}

    def _e(self, k):
        """'v*y' style spec -> exponent tuple; '' is the constant"""
        e = [0] * self.n
        if k:
            for t in k.split('*'):
                if '^' in t:
                    a, b = t.split('^')
                    e[self.ix[a]] += int(b)
                else:
                    e[self.ix[t]] += 1
        return tuple(e)

    def mono(self, **pw):
        e = [0] * self.n
        for a, p in pw.items():
            e[self.ix[a]] = p
        return {tuple(e): mpf(1)}

    def gen(self, al):
        r = self._g.get(al)
        if r is not None:
            return r
        out = {}
        for i, p in self.drift:
            if al[i]:
                b = list(al)
                b[i] -= 1
                for k, c in p.items():
                    key = tuple(x + y for x, y in zip(b, k))
                    out[key] = out.get(key, 0) + al[i] * c
        for i, j, p in self.cov:
            if i == j:
                w = mpf(al[i] * (al[i] - 1)) / 2
            else:
                w = mpf(al[i] * al[j])
            if w:
                b = list(al)
                b[i] -= 1
                b[j] -= 1
                for k, c in p.items():
                    key = tuple(x + y for x, y in zip(b, k))
                    out[key] = out.get(key, 0) + w * c
        for lam, jv, mom in self.jumps:
            jx = [self.ix[a] for a in jv]
            for beta, w in _betas([al[i] for i in jx]):
                if not any(beta):
                    continue
                b = list(al)
                for i, q in zip(jx, beta):
                    b[i] -= q
                for k, c in mom(beta).items():
                    e = self._e(k) if isinstance(k, str) else k
                    key = tuple(x + y for x, y in zip(b, e))
                    out[key] = out.get(key, 0) + w * M(lam) * c
        out = {k: v for k, v in out.items() if v != 0}
        self._g[al] = out
        return out

    def back(self, f, h):
        """x -> E[f(X_h)|X_0=x] as a polynomial"""
        h = M(h)
        term = dict(f)
        tot = dict(f)
        j = 0
        big = max([abs(v) for v in f.values()] + [mpf(1)])
        quiet = 0
        while term:
            j += 1
            nxt = {}
            for al, c in term.items():
                for k, g in self.gen(al).items():
                    nxt[k] = nxt.get(k, 0) + c * g
            s = h / j
            term = {k: v * s for k, v in nxt.items() if v != 0}
            mx = mpf(0)
            for k, v in term.items():
                tot[k] = tot.get(k, 0) + v
                if abs(v) > mx:
                    mx = abs(v)
            if mx < _TINY * big:
                quiet += 1
                if quiet >= 3:
                    break
            else:
                quiet = 0
            if j > 3000:
                raise RuntimeError('reference series did not converge')
        return tot

    def ev(self, f, x0):
        x = [M(x0[n]) for n in self.names]
        tot = mpf(0)
        for al, c in f.items():
            t = c
            for xi, a in zip(x, al):
                if a:
                    t *= xi ** a
            tot += t
        return tot

    def shift(self, f, var, size):
        """polynomial after substituting var -> var + size"""
        i = self.ix[var]
        size = M(size)
        out = {}
        for al, c in f.items():
            for q in range(al[i] + 1):
                b = list(al)
                b[i] -= q
                b = tuple(b)
                out[b] = out.get(b, 0) + c * comb(al[i], q) * (size ** q if q else 1)
        return out

    def add_random(self, f, var, mom):
        """polynomial after var -> var + R with independent R, E[R^q] = mom(q)"""
        i = self.ix[var]
        out = {}
        for al, c in f.items():
            for q in range(al[i] + 1):
                b = list(al)
                b[i] -= q
                b = tuple(b)
                out[b] = out.get(b, 0) + c * comb(al[i], q) * mom(q)
        return out


def _betas(al):
    if not al:
        yield (), 1
        return
    for rest, w in _betas(al[1:]):
        for q in range(al[0] + 1):
            yield (q,) + rest, w * comb(al[0], q)


# ---------------------------------------------------------------- elementary moments
def normal_mom(n, mu, var):
    """E[X^n], X ~ N(mu, var)"""
    mu, var = M(mu), M(var)
    a, b = mpf(1), mu
    if n == 0:
        return a
    for i in range(2, n + 1):
        a, b = b, mu * b + (i - 1) * var * a
    return b


def exp_mom(n, mean):
    return factorial(n) * M(mean) ** n


def central(raw):
    """raw: list of raw moments [1, m1, ...] -> list of central moments"""
    m1 = raw[1] if len(raw) > 1 else mpf(0)
    return [sum(comb(n, i) * (-m1) ** (n - i) * raw[i] for i in range(n + 1)) for n in range(len(raw))]


def cir_stationary(N, k, theta, sigma, lmbd=0, mu_v=0):
    """stationary raw moments of dv = k(theta-v)dt + sigma sqrt(v) dw + exponential jumps"""
    k, theta, sigma, lmbd, mu_v = map(M, (k, theta, sigma, lmbd, mu_v))
    m = [mpf(1)]
    for n in range(1, N + 1):
        s = n * k * theta * m[n - 1] + mpf(n * (n - 1)) / 2 * sigma ** 2 * m[n - 1]
        for i in range(1, n + 1):
            s += lmbd * comb(n, i) * exp_mom(i, mu_v) * m[n - i]
        m.append(s / (n * k))
    return m


# ---------------------------------------------------------------- processes
def sv(k, theta, sigma, rho, mu, jumps=()):
    return Process(('v', 'y'),
                   {'v': {'': M(k) * M(theta), 'v': -M(k)}, 'y': {'': M(mu), 'v': mpf(-1) / 2}},
                   {('v', 'v'): {'v': M(sigma) ** 2}, ('v', 'y'): {'v': M(rho) * M(sigma)}, ('y', 'y'): {'v': 1}},
                   jumps)


def sv_for(model, p):
    """the (v, y) process of a one-factor model with jumps left random"""
    if model == '1fsv':
        return sv(p['k'], p['theta'], p['sigma_v'], p['rho'], p['mu'])
    if model == '1fsvj':
        mom = lambda b: {'': normal_mom(b[0], p['mu_j'], M(p['sigma_j']) ** 2)}
        return sv(p['k'], p['theta'], p['sigma_v'], p['rho'], p['mu'], [(p['lambda'], ('y',), mom)])
    if model == 'svcj':
        def mom(b):
            # E[J^a (Js + rhoJ J)^c]
            a, c = b
            t = mpf(0)
            for i in range(c + 1):
                t += comb(c, i) * M(p['rhoJ']) ** i * exp_mom(a + i, p['mu_v']) * normal_mom(c - i, p['mu_s'], M(p['sigma_s']) ** 2)
            return {'': t}
        return sv(p['k'], p['theta'], p['sigma'], p['rho'], p['mu'], [(p['lmbd'], ('v', 'y'), mom)])
    if model == 'srjd':
        mom = lambda b: {'': exp_mom(b[0], p['mu_v'])}
        return sv(p['k'], p['theta'], p['sigma'], 0, 0, [(p['lmbd'], ('v',), mom)])
    raise KeyError(model)


def two_factor(p, jumps=()):
    return Process(('v', 'w', 'y'),
                   {'v': {'': M(p['k1']) * M(p['theta1']), 'v': -M(p['k1'])},
                    'w': {'': M(p['k2']) * M(p['theta2']), 'w': -M(p['k2'])},
                    'y': {'': M(p['mu']), 'v': mpf(-1) / 2, 'w': mpf(-1) / 2}},
                   {('v', 'v'): {'v': M(p['sigma_v1']) ** 2}, ('w', 'w'): {'w': M(p['sigma_v2']) ** 2},
                    ('y', 'y'): {'v': 1, 'w': 1}}, jumps)


def _setup(model, p, N):
    """process and stationary moments of its variance state, up to degree N"""
    if model in ('2fsv', '2fsvj'):
        jumps = ()
        if model == '2fsvj':
            mom = lambda b: {'': normal_mom(b[0], p['mu_j'], M(p['sigma_j']) ** 2)}
            jumps = [(p['lambda'], ('y',), mom)]
        P = two_factor(p, jumps)
        a = cir_stationary(N, p['k1'], p['theta1'], p['sigma_v1'])
        b = cir_stationary(N, p['k2'], p['theta2'], p['sigma_v2'])
        return P, lambda e: a[e[0]] * b[e[1]]
    P = sv_for(model, p)
    if model in ('svcj', 'srjd'):
        a = cir_stationary(N, p['k'], p['theta'], p['sigma'], p['lmbd'], p['mu_v'])
    else:
        a = cir_stationary(N, p['k'], p['theta'], p['sigma_v'])
    return P, lambda e: a[e[0]]


def _avg(f, st):
    return sum((c * st(e) for e, c in f.items() if e[-1] == 0), mpf(0))


def stationary_y(model, p, l):
    """E[y^l] with the variance started from its stationary law"""
    P, st = _setup(model, p, l)
    return _avg(P.back(P.mono(y=l), p['h']), st)


def stationary_yy(model, p, l1, l2):
    """E[y_n^l1 y_{n+1}^l2]"""
    P, st = _setup(model, p, l1 + l2)
    g = P.back(P.mono(y=l2), p['h'])
    g0 = {}
    for e, c in g.items():           # start the second interval at y=0
        if e[-1] == 0:
            g0[e[:-1] + (l1,)] = c
    return _avg(P.back(g0, p['h']), st)


def stationary_v(p, n):
    return cir_stationary(n, p['k'], p['theta'], p['sigma'], p['lmbd'], p['mu_v'])[n]


def given_v0(model, p, l, what='y'):
    P = sv_for(model, p)
    f = P.back(P.mono(**{what: l}), p['h'])
    return P.ev(f, {'v': p['v0'], 'y': 0})


def given_jumps(p, l, times, sizes, what='y', price_jumps=None, price_cpp=None):
    """E[what^l | v0, the variance jumps (times, sizes)].
    price_jumps(size) -> (mean, var) of a contemporaneous normal price jump
    price_cpp = (lmbd_s, mu_s, sigma_s) independent price jumps"""
    jumps = ()
    if price_cpp is not None:
        ls, ms, ss = price_cpp
        jumps = [(ls, ('y',), lambda b: {'': normal_mom(b[0], ms, M(ss) ** 2)})]
    P = sv(p['k'], p['theta'], p['sigma'], p.get('rho', 0), p.get('mu', 0), jumps)
    f = P.mono(**{what: l})
    t = M(p['h'])
    ev = sorted(zip([M(s) for s in times], [M(J) for J in sizes]), key=lambda a: a[0], reverse=True)
    for s, J in ev:
        f = P.back(f, t - s)
        f = P.shift(f, 'v', J)
        if price_jumps is not None:
            m, var = price_jumps(J)
            f = P.add_random(f, 'y', lambda q: normal_mom(q, m, var))
        t = s
    f = P.back(f, t)
    return P.ev(f, {'v': p['v0'], 'y': 0})


def given_v0_centred(raw_of, n):
    raw = [raw_of(i) for i in range(n + 1)]
    return central(raw)[n]


def cpp_moment(n, rate_h, mu, var):
    """raw moments of sum of Poisson(rate_h) many N(mu, var)"""
    P = Process(('y',), {}, {}, [(M(rate_h), ('y',), lambda b: {'': normal_mom(b[0], mu, var)})])
    return P.ev(P.back(P.mono(y=n), 1), {'y': 0})


# ---------------------------------------------------------------- Ito building blocks
def ito_process(k, theta, sigma, jumps=None):
    """(v, e, IE, I, S, Z, U, T): e=e^{ks}; IE, I driven by w^v; S=I*; Z=IEZ, U=IZ, T=IZ*.
    jumps: (lmbd, mu_v, mu_s, sigma_s)"""
    k, theta, sigma = map(M, (k, theta, sigma))
    jl = ()
    if jumps is not None:
        lm, mv, ms, ss = jumps
        names = ('v', 'Z', 'U', 'T')

        def mom(b):
            a, z, u, t = b
            key = 'e^%d' % z if z else ''
            return {key: exp_mom(a + z + u, mv) * normal_mom(t, ms, M(ss) ** 2)}
        jl = [(lm, names, mom)]
    return Process(('v', 'e', 'IE', 'I', 'S', 'Z', 'U', 'T'),
                   {'v': {'': k * theta, 'v': -k}, 'e': {'e': k}},
                   {('v', 'v'): {'v': sigma ** 2}, ('IE', 'IE'): {'v*e^2': 1}, ('I', 'I'): {'v': 1}, ('S', 'S'): {'v': 1},
                    ('v', 'IE'): {'v*e': sigma}, ('v', 'I'): {'v': sigma}, ('IE', 'I'): {'v*e': 1}}, jl)


def ito_moment(p, pw, v0, dt, start=0, jumps=None, hist=()):
    """E[prod of powers at the end of an interval of length dt starting at time `start` | v0];
    hist: given jumps [(time since start, size)] in the variance (also feeding Z, U)"""
    from mpmath import exp
    P = ito_process(p['k'], p['theta'], p['sigma'], jumps)
    f = P.mono(**pw)
    t = M(dt)
    for s, J in sorted([(M(a), M(b)) for a, b in hist], key=lambda a: a[0], reverse=True):
        f = P.back(f, t - s)
        f = P.shift(f, 'v', J)
        f = P.shift(f, 'U', J)
        out = {}
        iz, ie = P.ix['Z'], P.ix['e']
        for al, c in f.items():
            for q in range(al[iz] + 1):
                b = list(al)
                b[iz] -= q
                b[ie] += q
                b = tuple(b)
                out[b] = out.get(b, 0) + c * comb(al[iz], q) * J ** q
        f = out
        t = s
    f = P.back(f, t)
    x0 = {n: 0 for n in P.names}
    x0['v'] = v0
    x0['e'] = exp(M(p['k']) * M(start))
    return P.ev(f, x0)


def itos_moment(p, pw, v10, v20, dt, start=0):
    from mpmath import exp
    k1, k2 = M(p['k1']), M(p['k2'])
    s1, s2 = M(p['sigma_v1']), M(p['sigma_v2'])
    P = Process(('v', 'w', 'e', 'g', 'E1', 'I1', 'E2', 'I2', 'S'),
                {'v': {'': k1 * M(p['theta1']), 'v': -k1}, 'w': {'': k2 * M(p['theta2']), 'w': -k2},
                 'e': {'e': k1}, 'g': {'g': k2}},
                {('v', 'v'): {'v': s1 ** 2}, ('E1', 'E1'): {'v*e^2': 1}, ('I1', 'I1'): {'v': 1},
                 ('v', 'E1'): {'v*e': s1}, ('v', 'I1'): {'v': s1}, ('E1', 'I1'): {'v*e': 1},
                 ('w', 'w'): {'w': s2 ** 2}, ('E2', 'E2'): {'w*g^2': 1}, ('I2', 'I2'): {'w': 1},
                 ('w', 'E2'): {'w*g': s2}, ('w', 'I2'): {'w': s2}, ('E2', 'I2'): {'w*g': 1},
                 ('S', 'S'): {'v': 1, 'w': 1}})
    f = P.back(P.mono(**pw), dt)
    x0 = {n: 0 for n in P.names}
    x0.update(v=v10, w=v20, e=exp(k1 * M(start)), g=exp(k2 * M(start)))
    return P.ev(f, x0)


def jump_joint(p, n1, n2, n3, s, t):
    """E[IEZ_{s,t}^n1 IZ_{s,t}^n2 IZ*_{s,t}^n3]"""
    from mpmath import exp
    P = ito_process(p['k'], 0, 0, (p['lmbd'], p['mu_v'], p.get('mu_s', 0), p.get('sigma_s', 0)))
    # keep only the jump coordinates: powers of v never appear
    f = P.back(P.mono(Z=n1, U=n2, T=n3), M(t) - M(s))
    x0 = {n: 0 for n in P.names}
    x0['e'] = exp(M(p['k']) * M(s))
    return P.ev(f, x0)
