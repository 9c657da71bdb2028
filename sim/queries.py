"""Table of library queries with their reference values.

Every entry says how to call a public entry point and what its answer must evaluate to,
computed by refmodel (which shares no code with the library).  Symbolic answers are evaluated
here, in 60-digit arithmetic, through the names in their ``keyfor``; numeric answers are
compared directly.
"""
import importlib
import math
from fractions import Fraction as Fr

from mpmath import mpf, exp, sqrt

import refmodel as R
from refmodel import M

PREC = mpf(10) ** (-30)
FTOL = 1e-6


class Mismatch(Exception):
    pass


# functions also offered by the package itself
OFFERED = {'mdl_%s.%s' % (m, f): 'mdl_%s.%s' % (m, f.split('.')[1]) for m in ('1fsv', '1fsvj', '2fsv', '2fsvj')
           for f in ('cmom.cmoment_y', 'mom.moment_y', 'cov.cov_yy', 'cov.moment_yy')}
OFFERED.update({'mdl_svvj.cond2_cmom.cmoment_y': 'mdl_svvj.cmoment_y', 'mdl_svvj.cond2_mom.moment_y': 'mdl_svvj.moment_y',
                'cpp_mom.mcpp': 'mcpp', 'cpp_mom.cmcpp': 'cmcpp', 'ito_mom.moment_v': 'moment_v', 'itos_mom.moment_IEI_IEII': 'moment_IEI_IEII'})


def get(path, short=False):
    if short and path in OFFERED:
        pkg, _, fn = OFFERED[path].rpartition('.')
        return getattr(importlib.import_module('ajdmom' + ('.' + pkg if pkg else '')), fn)
    mod, fn = path.rsplit('.', 1)
    return getattr(importlib.import_module('ajdmom.' + mod), fn)


ABSENT = 'no such helper'


def optional(path, nargs):
    """a documented helper, or None when there is none of that name taking nargs arguments"""
    import inspect
    try:
        f = get(path)
        inspect.signature(f).bind(*range(nargs))
        return f
    except Exception:
        return None


# ------------------------------------------------------------------ evaluation of a Poly
def _pw(b):
    b = M(b)

    def f(n):
        if n == 0:
            return mpf(1)
        return b ** n
    return f


def _ex(r):
    r = M(r)
    return lambda n: exp(r * n) if n else mpf(1)


def _kpow(k1, k2, h=None):
    """product over ((n1,n2,i),...) of (n1 k1+n2 k2)^{-i}"""
    k1, k2 = M(k1), M(k2)

    def f(t):
        r = mpf(1)
        for n1, n2, i in t:
            if i:
                r *= (n1 * k1 + n2 * k2) ** (-i)
        return r
    return f


def fz_value(l, o, p, q, k, s, J):
    """sum over i_1..i_n of prod e^{l_j k s_ij} J_ij s_ij^o_j * prod_{j>=2} e^{p_j k max} max^q_j,
    by processing summation indices left to right (reference implementation)"""
    n = len(l)
    if n == 0:
        return mpf(1)
    k = M(k)
    s = [M(a) for a in s]
    J = [M(a) for a in J]
    acc = {}                              # running max -> weight
    for j in range(n):
        nxt = {}
        for i in range(len(s)):
            w = exp(l[j] * k * s[i]) * J[i]
            if o[j]:
                w *= s[i] ** o[j]
            if j == 0:
                nxt[s[i]] = nxt.get(s[i], 0) + w
            else:
                for m, a in acc.items():
                    mm = m if m > s[i] else s[i]
                    b = a * w * exp(p[j - 1] * k * mm)
                    if q[j - 1]:
                        b *= mm ** q[j - 1]
                    nxt[mm] = nxt.get(mm, 0) + b
        acc = nxt
    return sum(acc.values(), mpf(0))


FZ4 = ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')
FZ2 = ('l_{1:n}', 'o_{2:n}')


def value(poly, env):
    """(value, scale) of a Poly under env: keyfor name -> function of the exponent"""
    kf = tuple(poly.keyfor)
    fz = env.get('__fz__')
    width = len(kf)
    fs = []
    for i, n in enumerate(kf):
        if fz is not None and n in FZ4 + FZ2:
            continue
        if n not in env:
            raise Mismatch('keyfor names an unknown symbol %r' % (n,))
        fs.append((i, env[n]))
    jv = None
    if fz is not None:
        if all(n in kf for n in FZ4):
            ids = [kf.index(n) for n in FZ4]
            jv = lambda key: fz(tuple(key[i] for i in ids))
        elif all(n in kf for n in FZ2):
            ids = [kf.index(n) for n in FZ2]
            jv = lambda key: fz(tuple(key[i] for i in ids))
    memo = [dict() for _ in range(width)]
    tot = mpf(0)
    scale = mpf(0)
    for key, c in poly.items():
        if not isinstance(key, tuple) or len(key) != width:
            raise Mismatch('key %r does not fit the %d-element keyfor %r' % (key, width, kf))
        if isinstance(c, bool) or not isinstance(c, (int, Fr)):
            raise Mismatch('coefficient %r of %r is not an exact rational' % (c, key))
        t = M(c)
        for i, f in fs:
            e = key[i]
            mm = memo[i]
            v = mm.get(e)
            if v is None:
                v = mm[e] = f(e)
            t *= v
        if jv is not None:
            t *= jv(key)
        tot += t
        scale += abs(t)
    return tot, scale


def is_poly(x):
    return hasattr(x, 'keyfor') and hasattr(x, 'items')


def check_poly(poly, env, ref, kf=None):
    if not is_poly(poly):
        raise Mismatch('expected a Poly, got %s' % type(poly).__name__)
    if kf is not None and tuple(poly.keyfor) != tuple(kf):
        raise Mismatch('keyfor is %r, documented %r' % (tuple(poly.keyfor), tuple(kf)))
    v, sc = value(poly, env)
    if abs(v - ref) > PREC * (sc + abs(ref) + 1):
        raise Mismatch('formula evaluates to %s, reference %s' % (show(v), show(ref)))


def check_num(x, ref, scale=0, floor=mpf(10) ** (-11)):
    try:
        f = float(x)
    except Exception:
        raise Mismatch('expected a number, got %r' % (x,))
    if not math.isfinite(f):
        raise Mismatch('value %r is not finite' % (x,))
    if abs(mpf(f) - ref) > FTOL * (abs(ref) + abs(M(scale))) + floor:
        raise Mismatch('number %.15g, reference %s' % (f, show(ref)))


def show(v):
    from mpmath import nstr
    return nstr(v, 15)


# ------------------------------------------------------------------ parameters (exact dyadics)
def dy(rng, lo, hi, den=64):
    return Fr(rng.randint(int(math.ceil(lo * den)), int(math.floor(hi * den))), den)


def edge(rng, p, **kw):
    """now and then put one parameter on a legal special value"""
    for n in sorted(kw):
        if n in p and rng.random() < 0.15:
            p[n] = Fr(rng.choice(kw[n]))
    return p


EDGE = {'mu': [0], 'rho': [0, -1, 1, Fr(63, 64)], 'mu_j': [0], 'lambda': [0, Fr(1, 64), 3], 'sigma_v': [Fr(1, 64), 2],
        'sigma': [Fr(1, 64), 2], 'theta': [1, 2], 'v0': [Fr(1, 2), Fr(1, 64), 3], 'h': [1, Fr(1, 64)], 'lmbd': [Fr(1, 64), 3],
        'mu_s': [0], 'rhoJ': [0, Fr(-1)], 'rho_J': [0, 1], 'lmbd_s': [0, 3], 'sigma_s': [Fr(1, 64)], 'k': [1, 2, Fr(1, 4)]}


def edged(par, **more):
    kw = dict(EDGE)
    kw.update(more)
    return lambda rng: edge(rng, par(rng), **kw)


def crowd(p, ps):
    """many jumps instead of a few, or very small ones, for parameter names that ask for it"""
    if '.tiny.' in ps and p.get('jumpsize'):
        import random
        t = Fr(1, 2 ** random.Random('tiny-' + ps).randint(8, 20))
        p['jumpsize'] = [x * t for x in p['jumpsize']]
    if '.many.' in ps and 'jumptime' in p:
        import random
        rng = random.Random('crowd-' + ps)
        p['jumptime'], p['jumpsize'] = [], []
        while len(p['jumptime']) < 5:
            p['jumptime'], p['jumpsize'] = jump_history(rng, p['h'], rng.choice([6, 8, 9, 11]))
    return p


def params(Q, ps):
    """the parameters called ps ('<stream>.<number>'): multiples of 16 are drawn afresh, the numbers up to the next
    multiple are its neighbours, with a single component changed or all of them a little"""
    import random
    head, _, k = ps.rpartition('.')
    base = lambda name: crowd(Q.par(random.Random('par-' + name)), name)
    if not k.isdigit() or int(k) % 16 == 0:
        return base(ps)
    p = base('%s.%d' % (head, int(k) // 16 * 16))
    rng = random.Random('var-%s' % ps)
    new = Q.par(rng)
    names = [n for n in p if n not in ('k1', 'k2', 'jumptime', 'jumpsize', 'lb', 'ub')]
    if p.get('jumpsize'):
        names += ['jumpsize', 'jumptime', 'jumporder'] * 2
    if 'k1' in p:
        names += ['kk']
    if 'ub' in p:
        names += ['lb', 'ub']
    n = rng.choice(names)
    kind = int(k) % 16
    both = [x for x in p if x in SCALED and p[x] > 0]
    if kind in (1, 2) and len(both) > 1:                      # or with two values the other way round
        a, b = rng.sample(both, 2)
        other = {a: b, b: a}
        return {other.get(x, x): v for x, v in p.items()}
    signed = [x for x in p if x in ('mu', 'rho', 'mu_j', 'mu_s', 'rho_J', 'rhoJ')]
    if kind == 3 and signed:                                  # or with another sign
        for a in signed:
            p[a] = -p[a]
        return p
    signed = [x for x in signed if x.startswith('mu')]
    if kind in (4, 5) and signed:                             # or numbers of the same hash
        p[signed[0]] = Fr(3 - kind)
        return p
    if kind == 6:                                             # or with whole numbers, given as such (see given())
        for n in [x for x in p if x in SCALED or x in ('h', 'k')]:
            if n not in ('rho', 'rho_J', 'rhoJ'):
                v = Fr(max(1, round(p[n])) if p[n] > 0 else round(p[n]))
                if n == 'h' and p.get('jumptime'):
                    v = max(v, Fr(math.ceil(max(p['jumptime']))))
                p[n] = v
        return p
    if rng.random() < 0.45:                                   # or a neighbour very close by in everything
        near = lambda: 1 - Fr(2) ** -rng.randint(10, 16)
        t = near()
        for n in list(p):
            if n in ('k1', 'k2'):
                p[n] = p[n] * t                               # their ratio decides which terms coincide
            elif n == 'jumpsize':
                p[n] = [x * near() for x in p[n]]
            elif n == 'jumptime':
                p[n] = [x * t for x in p[n]]
            elif n == 'ub' or n == 'h':
                p[n] = p[n] * (2 - near())
            else:
                p[n] = p[n] * near()
        return p
    if n == 'jumpsize':
        p[n] = [dy(rng, 0.05, 0.6) for _ in p[n]]
    elif n == 'jumptime':
        p[n] = sorted(dy(rng, 0, p['h']) for _ in p[n])
    elif n == 'jumporder':
        p['jumpsize'] = p['jumpsize'][::-1]
    elif n == 'kk':
        p['k1'], p['k2'] = new['k1'], new['k2']
    elif n == 'ub':
        p[n] = p['lb'] + dy(rng, 0.2, 1.0)
    elif n == 'lb':
        p[n] = p['ub'] * (1 - dy(rng, 0.1, 1))
    elif n == 'h' and p.get('jumptime'):
        p[n] = max([new[n]] + list(p['jumptime']))
    else:
        p[n] = new[n]
    return p


SCALED = ('mu', 'theta', 'sigma', 'sigma_v', 'lambda', 'mu_j', 'sigma_j', 'v0', 'lmbd', 'mu_v', 'mu_s', 'sigma_s', 'lmbd_s', 'rho_J', 'rhoJ',
          'theta1', 'theta2', 'sigma_v1', 'sigma_v2')


def scaled(par):
    """now and then parameters of very different sizes"""
    def f(rng):
        p = par(rng)
        if rng.random() < 0.35:
            e = rng.choice([-4, -10, -20, -24, 4, 10])
            for n in sorted(p):
                if n in SCALED and rng.random() < 0.5:
                    p[n] = p[n] * Fr(2) ** e
        return p
    return f


def smooth(par):
    """the parameters with rho away from +-1, for derivatives"""
    return lambda rng: edge(rng, par(rng), **{n: v for n, v in EDGE.items() if n not in ('rho', 'lambda')})


def par_1f(rng):
    return {'mu': dy(rng, -0.5, 0.75), 'k': dy(rng, 0.75, 2.5), 'theta': dy(rng, 0.1, 0.9),
            'sigma_v': dy(rng, 0.1, 0.8), 'rho': dy(rng, -0.9, 0.9), 'h': dy(rng, 0.3, 1.5),
            'lambda': dy(rng, 0.1, 1.5), 'mu_j': dy(rng, -0.6, 0.6), 'sigma_j': dy(rng, 0.1, 0.7)}


def par_1fc(rng):
    p = par_1f(rng)
    p['v0'] = dy(rng, 0.1, 1.5)
    return p


def par_2f(rng):
    while True:                       # keep n1*k1 + n2*k2 away from 0 for the orders in use
        a, b = rng.randint(48, 110), rng.randint(90, 190)
        g = math.gcd(a, b)
        if a // g > 12 and b // g > 12 and a != b and min(abs(x * a - y * b) for x in range(1, 9) for y in range(1, 9)) >= 8:
            break
    k1, k2 = Fr(a, 64), Fr(b, 64)
    if rng.random() < 0.3:
        k1, k2 = k2, k1
    return {'mu': dy(rng, -0.5, 0.75), 'k1': k1, 'k2': k2, 'theta1': dy(rng, 0.1, 0.9), 'theta2': dy(rng, 0.1, 0.9),
            'sigma_v1': dy(rng, 0.1, 0.8), 'sigma_v2': dy(rng, 0.1, 0.8), 'h': dy(rng, 0.3, 1.5),
            'lambda': dy(rng, 0.1, 1.5), 'mu_j': dy(rng, -0.6, 0.6), 'sigma_j': dy(rng, 0.1, 0.7)}


def par_svcj(rng):
    return {'v0': dy(rng, 0.1, 1.5), 'mu': dy(rng, -0.5, 0.75), 'k': dy(rng, 0.75, 2.5), 'theta': dy(rng, 0.1, 0.9),
            'sigma': dy(rng, 0.1, 0.8), 'rho': dy(rng, -0.9, 0.9), 'h': dy(rng, 0.3, 1.25),
            'lmbd': dy(rng, 0.1, 1.5), 'mu_v': dy(rng, 0.1, 0.5), 'rhoJ': dy(rng, -0.7, 0.7),
            'mu_s': dy(rng, -0.5, 0.5), 'sigma_s': dy(rng, 0.1, 0.6)}


def jump_history(rng, h, nmax=4):
    """simulated jump arrivals on [0,h]: ordinary, clustered, tied, at the ends, none"""
    style = rng.choice(['none', 'plain', 'plain', 'plain', 'tied', 'ends', 'cluster', 'dense'])
    grid = 64
    if style == 'none':
        return [], []
    n = rng.randint(1, nmax)
    if style == 'dense':
        n = nmax + 1
    hi = int(h * grid)
    ts = sorted(rng.randint(1, max(1, hi - 1)) for _ in range(n))
    if style == 'tied':
        ts = sorted(ts + [ts[0]])[:nmax + 1]
    if style == 'ends':
        ts = [0] + ts[:nmax - 1] + [hi]
    if style == 'cluster':
        c = ts[0]
        ts = sorted(min(hi, c + i) for i in range(n))
    times = [Fr(t, grid) for t in ts]
    if style == 'ends':
        times[-1] = Fr(h)
    sizes = [dy(rng, 0.05, 0.6) for _ in times]
    return times, sizes


def par_hist(rng):
    p = {'v0': dy(rng, 0.1, 1.5), 'mu': dy(rng, -0.5, 0.75), 'k': dy(rng, 0.75, 2.0), 'theta': dy(rng, 0.1, 0.9),
         'sigma': dy(rng, 0.1, 0.8), 'rho': dy(rng, -0.9, 0.9), 'h': dy(rng, 0.4, 1.25),
         'lmbd_s': dy(rng, 0.1, 1.5), 'mu_s': dy(rng, -0.5, 0.5), 'sigma_s': dy(rng, 0.1, 0.6), 'rho_J': dy(rng, -0.7, 0.7)}
    t, s = jump_history(rng, p['h'])
    p['jumptime'] = t
    p['jumpsize'] = s
    return p


def par_iez(rng):
    a = dy(rng, 0, 0.8)
    return {'k': dy(rng, 0.5, 2.0), 'lmbd': dy(rng, 0.1, 1.5), 'mu_v': dy(rng, 0.1, 0.6), 'lb': a,
            'ub': a + dy(rng, 0.2, 1.0), 'mu_s': dy(rng, -0.5, 0.5), 'sigma_s': dy(rng, 0.1, 0.6)}


def par_cpp(rng):
    return {'lambda': dy(rng, 0.1, 2), 'h': dy(rng, 0.3, 1.5), 'mu': dy(rng, -0.7, 0.7), 'sigma': dy(rng, 0.1, 0.9)}


def par_ito(rng):
    p = par_hist(rng)
    p['start'] = dy(rng, 0, 1.0)
    return p


def par_itos(rng):
    p = par_2f(rng)
    p['v10'] = dy(rng, 0.1, 1.5)
    p['v20'] = dy(rng, 0.1, 1.5)
    p['start'] = dy(rng, 0, 1.0)
    return p


def fpar(p):
    """what a user passes: plain floats / tuples of floats"""
    return {k: (tuple(float(x) for x in v) if isinstance(v, (list, tuple)) else float(v)) for k, v in p.items()}


def given(p, ps):
    """the same, whole numbers as such for some names"""
    k = ps.rpartition('.')[2]
    d = fpar(p)
    if k.isdigit() and int(k) % 16 == 6:
        d = {n: int(v) if isinstance(v, float) and v.is_integer() else v for n, v in d.items()}
    return d


# ------------------------------------------------------------------ environments
def env_1f(p):
    k, h = M(p['k']), M(p['h'])
    return {'e^{-kh}': _ex(-k * h), 'h': _pw(h), 'k^{-}': _pw(1 / k), 'mu': _pw(p['mu']), 'theta': _pw(p['theta']),
            'sigma_v': _pw(p['sigma_v']), 'rho': _pw(p['rho']), 'sqrt(1-rho^2)': _pw(sqrt(1 - M(p['rho']) ** 2)),
            'lambda': _pw(p['lambda']), 'mu_j': _pw(p['mu_j']), 'sigma_j': _pw(p['sigma_j'])}


def env_2f(p):
    k1, k2, h = M(p['k1']), M(p['k2']), M(p['h'])
    return {'(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}': _kpow(k1, k2),
            'e^{-(n1*k1+n2*k2)h}': lambda t: exp(-(t[0] * k1 + t[1] * k2) * h),
            'h': _pw(h), 'mu': _pw(p['mu']), 'theta1': _pw(p['theta1']), 'sigma_v1': _pw(p['sigma_v1']),
            'theta2': _pw(p['theta2']), 'sigma_v2': _pw(p['sigma_v2']), 'lambda': _pw(p['lambda']),
            'mu_j': _pw(p['mu_j']), 'sigma_j': _pw(p['sigma_j'])}


def env_cond1f(p):
    k, h, s, r = M(p['k']), M(p['h']), M(p['sigma_v']), M(p['rho'])
    return {'e^{kt}': _ex(k * h), 'e^{-kt}': _ex(-k * h), 't': _pw(h), 'k^{-}': _pw(1 / k), 'v_0': _pw(p['v0']),
            'v_0-theta': _pw(M(p['v0']) - M(p['theta'])), 'theta': _pw(p['theta']), 'sigma': _pw(s),
            'sigma/2k': _pw(s / (2 * k)), 'rho-sigma/2k': _pw(r - s / (2 * k)), 'sqrt(1-rho^2)': _pw(sqrt(1 - r * r)),
            'rho': _pw(r)}


def env_svcj(p):
    k, h = M(p['k']), M(p['h'])
    ev = M(p['theta']) + M(p['lmbd']) * M(p['mu_v']) / k
    d = {'e^{kt}': _ex(k * h), 'e^{-kt}': _ex(-k * h), 't': _pw(h), 'k^{-}': _pw(1 / k), 'E[v]': _pw(ev),
         'v0-theta': _pw(M(p['v0']) - M(p['theta'])), 'v0-E[v]': _pw(M(p['v0']) - ev)}
    for n in ('mu', 'theta', 'sigma', 'rho', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s'):
        if n in p:
            d[n] = _pw(p[n])
    return d


def env_hist(p):
    k, h, s, r = M(p['k']), M(p['h']), M(p['sigma']), M(p['rho'])
    times, sizes = p['jumptime'], p['jumpsize']
    memo = {}

    def fz(t):
        v = memo.get(t)
        if v is None:
            if len(t) == 4:
                v = fz_value(t[0], t[1], t[2], t[3], k, times, sizes)
            else:                          # (l, o): o are the powers of e^{k max}
                z = (0,) * len(t[0])
                v = fz_value(t[0], z, t[1], z[1:], k, times, sizes)
            memo[t] = v
        return v

    def jp(t):
        r_ = mpf(1)
        if len(t) != len(sizes):
            raise Mismatch('J_{1:n} has %d exponents for %d jumps' % (len(t), len(sizes)))
        for a, e in zip(sizes, t):
            r_ *= M(a) ** e
        return r_
    d = {'e^{kt}': _ex(k * h), 'e^{-kt}': _ex(-k * h), 't': _pw(h), 'k^{-}': _pw(1 / k), 'v_0': _pw(p['v0']),
         'v0-theta': _pw(M(p['v0']) - M(p['theta'])), 'beta_t': _pw((1 - exp(-k * h)) / (2 * k)),
         'mu-theta/2': _pw(M(p['mu']) - M(p['theta']) / 2), 'sigma/2k': _pw(s / (2 * k)),
         'rho-sigma/2k': _pw(r - s / (2 * k)), 'sqrt(1-rho^2)': _pw(sqrt(1 - r * r)), 'J_{1:n}': jp, '__fz__': fz}
    for n in ('theta', 'sigma', 'rho', 'lmbd_s', 'mu_s', 'sigma_s', 'rho_J'):
        d[n] = _pw(p[n])
    return d


def env_iez(p):
    k = M(p['k'])
    s, t = M(p['lb']), M(p['ub'])
    return {'e^{kt}': _ex(k * t), 'e^{ks}': _ex(k * s), 't-s': _pw(t - s), 'k^{-}': _pw(1 / k), 'lmbd': _pw(p['lmbd']),
            'mu_v': _pw(p['mu_v']), 'mu_s': _pw(p['mu_s']), 'sigma_s': _pw(p['sigma_s'])}


def env_ito(p):
    k, dt, st = M(p['k']), M(p['h']), M(p['start'])
    return {'e^{k(n-1)h}': _ex(k * st), 'e^{k[t-(n-1)h]}': _ex(k * dt), '[t-(n-1)h]': _pw(dt), 'v_{n-1}': _pw(p['v0']),
            'k^{-}': _pw(1 / k), 'theta': _pw(p['theta']), 'sigma_v': _pw(p['sigma'])}


def env_itos(p):
    k1, k2, dt, st = M(p['k1']), M(p['k2']), M(p['h']), M(p['start'])
    return {'(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}': _kpow(k1, k2),
            'e^{(m_4*k1+m_6*k2)(n-1)h}': lambda t: exp((t[0] * k1 + t[1] * k2) * st),
            'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}': lambda t: exp((t[0] * k1 + t[1] * k2) * dt),
            '[t-(n-1)h]': _pw(dt), 'v_{1,n-1}': _pw(p['v10']), 'theta1': _pw(p['theta1']), 'sigma_v1': _pw(p['sigma_v1']),
            'v_{2,n-1}': _pw(p['v20']), 'theta2': _pw(p['theta2']), 'sigma_v2': _pw(p['sigma_v2'])}


def env_cpp(p):
    return {'mu': _pw(p['mu']), 'sigma': _pw(p['sigma']), 'sigma^2': _pw(M(p['sigma']) ** 2),
            'lambda*h': _pw(M(p['lambda']) * M(p['h']))}


# ------------------------------------------------------------------ references
_cache = {}


def cached(key, f):
    if len(_cache) > 40000:
        _cache.clear()
    if key not in _cache:
        _cache[key] = f()
    return _cache[key]


def pk(p):
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in p.items()))


def raws(model, p, n):
    return [cached((model, 'raw', pk(p), i), lambda i=i: R.stationary_y(model, p, i)) for i in range(n + 1)]


def ref_m(model):
    return lambda a, p: raws(model, p, a[0])[a[0]]


def ref_cm(model):
    return lambda a, p: R.central(raws(model, p, a[0]))[a[0]]


def ref_yy(model):
    return lambda a, p: cached((model, 'yy', pk(p), tuple(a)), lambda: R.stationary_yy(model, p, a[0], a[1]))


def ref_cov(model):
    def f(a, p):
        r = raws(model, p, max(a))
        return ref_yy(model)(a, p) - r[a[0]] * r[a[1]]
    return f


EPS = mpf(10) ** (-18)


def deriv(ref):
    """central difference in 60-digit arithmetic (error of order 1e-36); last argument is the parameter"""
    def f(a, p):
        w = a[-1]
        q, r = dict(p), dict(p)
        q[w] = M(p[w]) + EPS
        r[w] = M(p[w]) - EPS
        return (ref(a[:-1], q) - ref(a[:-1], r)) / (2 * EPS)
    return f


def _hraw(p, l, what, tag, **kw):
    return cached((tag, what, pk(p), l), lambda: R.given_jumps(p, l, p['jumptime'], p['jumpsize'], what, **kw))


def hist_kw(model, p):
    if model == 'svij':
        return {'price_cpp': (p['lmbd_s'], p['mu_s'], p['sigma_s'])}
    if model == 'svcj':
        return {'price_jumps': lambda J: (M(p['mu_s']) + M(p['rho_J']) * J, M(p['sigma_s']) ** 2)}
    return {}


def hist_m(model, what='y'):
    return lambda a, p: _hraw(p, a[0], what, model, **hist_kw(model, p))


def hist_cm(model, what='y'):
    return lambda a, p: R.central([_hraw(p, i, what, model, **hist_kw(model, p)) for i in range(a[0] + 1)])[a[0]]


def v0_m(model, what='y'):
    return lambda a, p: cached((model, what, 'v0', pk(p), a[0]), lambda: R.given_v0(model, p, a[0], what))


def v0_cm(model, what='y'):
    return lambda a, p: R.central([v0_m(model, what)([i], p) for i in range(a[0] + 1)])[a[0]]


def v0_x(a, p):
    """x_t = e^{kt}(v_t - theta) - (v_0 - theta)"""
    n = a[0]
    th, e = M(p['theta']), exp(M(p['k']) * M(p['h']))
    c = -e * th - (M(p['v0']) - th)
    return sum((math.comb(n, i) * e ** i * v0_m('srjd', 'v')([i], p) * c ** (n - i) for i in range(n + 1)), mpf(0))


def ito_hist(a, p):
    return R.ito_moment({'k': p['k'], 'theta': p['theta'], 'sigma': p['sigma']}, {'IE': a[0], 'I': a[1], 'S': a[2]}, p['v0'],
                        p['h'], 0, None, list(zip(p['jumptime'], p['jumpsize'])))


def ito_plain(a, p):
    return R.ito_moment({'k': p['k'], 'theta': p['theta'], 'sigma': p['sigma']}, {'IE': a[0], 'I': a[1], 'S': a[2]}, p['v0'],
                        p['h'], p['start'])


def itos_ref(a, p):
    return R.itos_moment(p, dict(zip(('E1', 'I1', 'E2', 'I2', 'S'), a)), p['v10'], p['v20'], p['h'], p['start'])


def ie_iez(a, p):
    return R.ito_moment(p, {'IE': a[0], 'Z': a[1]}, p['v0'], p['h'], 0, (p['lmbd'], p['mu_v'], 0, 0))


def ie_iez_c(a, p):
    """same with IEZ centred"""
    m = ie_iez([0, 1], p)
    return sum((math.comb(a[1], i) * (-m) ** (a[1] - i) * ie_iez([a[0], i], p) for i in range(a[1] + 1)), mpf(0))


def joint6(a, p):
    return R.ito_moment(p, dict(zip(('IE', 'I', 'S', 'Z', 'U', 'T'), a)), p['v0'], p['h'], 0,
                        (p['lmbd'], p['mu_v'], p['mu_s'], p['sigma_s']))


def jj(a, p):
    a = list(a) + [0, 0]
    return R.jump_joint(p, a[0], a[1], a[2], p['lb'], p['ub'])


def jj_h(a, p):
    return R.jump_joint(p, a[0], a[1], a[2], 0, p['h'])


def iez_cm(a, p):
    return R.central([jj([i], p) for i in range(a[0] + 1)])[a[0]]


# ------------------------------------------------------------------ documented layouts
KF = {}
KF['1f'] = ('e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')
KF['1fc'] = ('e^{-kh}', 'h', 'k^{-}', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')
_j = ('lambda', 'mu_j', 'sigma_j')
KF['1fj'] = KF['1f'] + _j
KF['1fjc'] = KF['1fc'] + _j
KF['2f'] = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'e^{-(n1*k1+n2*k2)h}', 'h', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2')
KF['2fc'] = tuple(n for n in KF['2f'] if n != 'mu')
KF['2fj'] = KF['2f'] + _j
KF['2fjc'] = KF['2fc'] + _j
KF['cond1f'] = ('e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
_h0 = ('e^{kt}', 't', 'k^{-}')
_h1 = ('v0-theta', 'theta', 'sigma') + FZ4 + ('sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
KF['svvj_m'] = _h0 + ('beta_t', 'mu-theta/2') + _h1
KF['svvj_cm'] = _h0 + _h1
KF['svij_m'] = KF['svvj_m'] + ('lmbd_s', 'mu_s', 'sigma_s')
KF['svij_cm'] = KF['svvj_cm'] + ('lmbd_s', 'mu_s', 'sigma_s')
KF['svcj_m2'] = KF['svvj_m'] + ('mu_s', 'rho_J', 'sigma_s', 'J_{1:n}')
KF['svcj_cm2'] = KF['svvj_cm'] + ('sigma_s',)
KF['srjd2'] = ('v_0', 'k^{-}', 'theta', 'sigma', 'e^{kt}', 'l_{1:n}', 'o_{2:n}')
KF['svcj_v0'] = ('e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s')
KF['svcj_un'] = tuple('E[v]' if n == 'v0-theta' else n for n in KF['svcj_v0'])
KF['srjd_v0'] = ('e^{kt}', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v')
KF['srjd_ev'] = ('e^{kt}', 'k^{-}', 'v0-E[v]', 'E[v]', 'sigma', 'lmbd', 'mu_v')
KF['srjd_un'] = ('k^{-}', 'E[v]', 'sigma', 'lmbd', 'mu_v')
KF['srjd_unt'] = ('k^{-}', 'theta', 'sigma', 'lmbd', 'mu_v')
KF['iez'] = ('e^{kt}', 'e^{ks}', 'k^{-}', 'lmbd', 'mu_v')
KF['ieziziz'] = ('e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s')
KF['joint6'] = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v', 'mu_s', 'sigma_s')
KF['ito'] = ('e^{k(n-1)h}', 'e^{k[t-(n-1)h]}', '[t-(n-1)h]', 'v_{n-1}', 'k^{-}', 'theta', 'sigma_v')
KF['itos'] = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'e^{(m_4*k1+m_6*k2)(n-1)h}', 'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}',
              '[t-(n-1)h]', 'v_{1,n-1}', 'theta1', 'sigma_v1', 'v_{2,n-1}', 'theta2', 'sigma_v2')
KF['greek'] = ('e^{-κh}', 'h', 'μ', 'θ₀', 'σ_v', '√(1−ρ²)')   # a user's own layout
KF['itoc'] = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma') + FZ4


# ------------------------------------------------------------------ the table
class Q:
    """one public query.
    kind 'poly': symbolic; 'num': numeric with a parameter dict; 'list'/'dict': containers of Polys"""

    def __init__(self, name, fam, kind, args, par, ref, env=None, kf=None, call=None, elem=None, scale=None, cost=None):
        self.name, self.fam, self.kind = name, fam, kind
        self.fn = name.rsplit('.', 1)[1]
        self.ix = len(TABLE)
        self.args, self.ref_, self.env = args, ref, env
        self.par = smooth(par) if self.fn[0] == 'd' else edged(par)
        if fam == 'EVAL':
            self.par = scaled(self.par)
        self.kf = KF[kf] if isinstance(kf, str) else kf
        self.call_ = call
        self.elem = elem
        self.scale = scale
        self.optional = 0               # number of arguments of a helper that need not exist
        self.operand = None             # layout of the arbitrary formula handed in
        self.cost = cost or (lambda a: sum(x for x in a if isinstance(x, int)))

    def ref(self, a, p):
        """reference value, kept across runs"""
        return cached((self.ix, tuple(a), pk(p)), lambda: self.ref_(a, p))

    def prefetch(self, a, p):
        if self.kind == 'list':
            for i in range(a[0] + 1):
                self.ref([i] + list(a[1:]), p)
        elif self.kind != 'dict' and self.ref_ is not None:  # dict entries are not known beforehand
            self.ref(a, p)
            if self.scale:
                self.scale(a, p)

    def call(self, a, p):
        if self.optional:
            f = optional(self.name, self.optional)
            if f is None:
                return ABSENT
        else:
            f = get(self.name, sum(map(ord, repr(a))) % 2)         # asked of the module or of the package
        if self.call_ is not None:
            return self.call_(f, a, p)
        if self.kind == 'num':
            n = [x for x in a if not isinstance(x, str)]
            w = [x for x in a if isinstance(x, str)]
            return f(*n, p, *w)
        return f(*a)

    def rounding(self, a, p):
        """how far rounding alone moves this number: its spread over parameters a few units in the last place apart,
        which the exact value does not notice (formulas of high orders cancel most of their digits)"""
        got = []
        for j in range(8):
            d = fpar(p)
            for i, n in enumerate(sorted(d)):
                if isinstance(d[n], float):
                    e = (1 + (3 * i + 5 * j) % 7) * 2.0 ** -51
                    d[n] *= 1 + e if n in ('h', 'ub') else 1 - e
            try:
                x = float(self.call(a, d))
            except Exception:                   # noqa
                return 0
            if not math.isfinite(x):
                return 0
            got.append(x)
        return max(got) - min(got)

    def check(self, res, a, p):
        """raise Mismatch unless res is the documented answer"""
        if self.kind == 'self' or res is ABSENT:  # call_ has checked it
            return
        if self.kind == 'num':
            sc = self.scale(a, p) if self.scale else 0
            floor = mpf(10) ** (-280 if self.fam == 'EVAL' else -11)
            try:
                return check_num(res, self.ref(a, p), sc, floor)
            except Mismatch:
                r = self.rounding(a, p) if self.fam in ('CV0', 'SV1', 'SV2', 'HIST', 'CPP', 'BLOCK') else 0
                if not r or (r > 1e-5 * float(abs(self.ref(a, p)) + M(sc)) and sum(x for x in a if isinstance(x, int)) < 8):
                    raise                       # rounding is not that coarse
            return check_num(res, self.ref(a, p), sc, floor + 20 * M(r))
        if self.kind == 'poly':
            kf = self.kf(a) if callable(self.kf) else self.kf
            return check_poly(res, self.env(p), self.ref(a, p), kf)
        if self.kind == 'list':
            if not isinstance(res, (list, tuple)):
                raise Mismatch('expected a list of Polys')
            n = a[0]
            if len(res) < n + 1:
                raise Mismatch('expected orders 0..%d, got %d entries' % (n, len(res)))
            env = self.env(p)
            for i in range(n + 1):
                try:
                    check_poly(res[i], env, self.ref([i] + list(a[1:]), p), self.kf)
                except Mismatch as e:
                    raise Mismatch('order %d: %s' % (i, e))
            return
        if self.kind == 'dict':
            env = self.env(p)
            if tuple(a) not in res:
                raise Mismatch('requested order missing from the returned dict')
            import itertools
            for key in itertools.product(*[range(x + 1) for x in a]):
                if key not in res:
                    raise Mismatch('lower order %r missing from the returned dict' % (key,))
            for key, poly in res.items():
                try:
                    check_poly(poly, env, self.ref(list(key), p), self.kf)
                except Mismatch as e:
                    raise Mismatch('entry %r: %s' % (key, e))
            return
        raise KeyError(self.kind)


TABLE = []


def add(*a, **k):
    TABLE.append(Q(*a, **k))


# argument spaces: exact(n) lists every argument list of total order n
class Space:
    def __init__(self, exact, lo=0):
        self.exact, self.lo = exact, lo

    def upto(self, n):
        return [a for i in range(self.lo, n + 1) for a in self.exact(i)]


def order(lo, hi=None):
    return Space(lambda n: [[n]] if n >= lo else [], lo)


def pair(hi=None):
    return Space(lambda n: [[i, n - i] for i in range(n + 1)])


def _comps(n, k):
    if k == 1:
        return [[n]]
    return [[i] + r for i in range(n + 1) for r in _comps(n - i, k - 1)]


def tup(k, hi=None):
    return Space(lambda n: _comps(n, k))


def with_wrt(g, names):
    return Space(lambda n: [a + [w] for a in g.exact(n) for w in names], g.lo)


def choice(g, opts):
    return Space(lambda n: [a + [w] for a in g.exact(n) for w in opts], g.lo)


def unit_scale(ref2):
    """natural size of an order-n quantity, for float tolerances"""
    def f(a, p):
        n = sum(x for x in a if isinstance(x, int))
        return 10 * (1 + n) * (abs(ref2([2], p)) + mpf(1) / 4) ** (mpf(n) / 2)
    return f


TAB_W = None
W1 = ['k', 'mu', 'theta', 'sigma_v', 'rho']
W1C = ['k', 'theta', 'sigma_v', 'rho', 'mu']
WJ = ['lambda', 'mu_j', 'sigma_j']
W2 = ['k1', 'k2', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2']


def poly_wrt(modname, fn):
    """dpoly(<fn>(*args), wrt)"""
    def call(f, a, p):
        poly = get(modname + '.' + fn)(*a[:-1])
        return f(poly, a[-1])
    return call


for model, fam, kfm, kfc, par, env, hi, hc in (
        ('1fsv', 'SV1', '1f', '1fc', par_1f, env_1f, 6, 4), ('1fsvj', 'SV1', '1fj', '1fjc', par_1f, env_1f, 5, 4),
        ('2fsv', 'SV2', '2f', '2fc', par_2f, env_2f, 4, 4), ('2fsvj', 'SV2', '2fj', '2fjc', par_2f, env_2f, 4, 4)):
    b = 'mdl_' + model
    sc = unit_scale(ref_m(model))
    W = (W1 if fam == 'SV1' else W2) + (WJ if model.endswith('j') else [])
    add(b + '.mom.moment_y', fam, 'poly', order(0, hi), par, ref_m(model), env, kfm)
    add(b + '.mom.m', fam, 'num', order(0, hi), par, ref_m(model), scale=sc)
    add(b + '.mom.dm', fam, 'num', with_wrt(order(1, hi - 1), W), par, deriv(ref_m(model)), scale=lambda a, p, s=sc: 20 * s(a, p))
    add(b + '.mom.dpoly', fam, 'poly', with_wrt(order(1, hi - 1), W), par, deriv(ref_m(model)), env, kfm, call=poly_wrt(b + '.mom', 'moment_y'))
    add(b + '.cmom.cmoment_y', fam, 'poly', order(0, hi), par, ref_cm(model), env, kfc)
    add(b + '.cmom.cm', fam, 'num', order(0, hi), par, ref_cm(model), scale=sc)
    add(b + '.cmom.dcm', fam, 'num', with_wrt(order(2, hi - 1), W), par, deriv(ref_cm(model)), scale=lambda a, p, s=sc: 20 * s(a, p))
    add(b + '.cmom.dpoly', fam, 'poly', with_wrt(order(2, hi - 1), W), par, deriv(ref_cm(model)), env, kfc, call=poly_wrt(b + '.cmom', 'cmoment_y'))
    add(b + '.cov.moment_yy', fam, 'poly', pair(hc), par, ref_yy(model), env, kfm)
    add(b + '.cov.cov_yy', fam, 'poly', pair(hc), par, ref_cov(model), env, kfm)
    add(b + '.cov.cov', fam, 'num', pair(hc), par, ref_cov(model), scale=sc)
    add(b + '.cov.dcov', fam, 'num', with_wrt(pair(hc - 1), W), par, deriv(ref_cov(model)), scale=lambda a, p, s=sc: 20 * s(a, p))


# one-factor conditional central moments
def _c1(p):
    q = dict(p)
    return q


add('mdl_1fsv.cond_cmom.cmoments_y_to', 'CV0', 'list', order(1, 6), par_1fc, v0_cm('1fsv'), env_cond1f, 'cond1f',
    call=lambda f, a, p: f(a[0], *shows(p)))
add('mdl_1fsv.cond_cmom.cond_cm', 'CV0', 'num', order(0, 6), par_1fc, v0_cm('1fsv'), scale=unit_scale(v0_m('1fsv')))
_SK = {1: ('e^{-kt}',) + KF['cond1f'][1:], 2: ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho'),
       3: ('e^{-kt}', 't', 'k^{-}', 'v_0', 'theta', 'sigma', 'rho')}
add('mdl_1fsv.cond_cmom.simplify', 'CV0', 'poly', choice(order(1), [1, 2, 3]), par_1fc,
    lambda a, p: v0_cm('1fsv')(a, p), env_cond1f, lambda a: _SK[a[1]],
    call=lambda f, a, p: f(get('mdl_1fsv.cond_cmom.cmoments_y_to')(a[0])[a[0]], a[1]), cost=lambda a: a[0])

# SRJD
add('mdl_srjd.cond_mom.moment_v', 'CV0', 'poly', order(0, 6), par_svcj, v0_m('srjd', 'v'), env_svcj, 'srjd_v0')
add('mdl_srjd.cond_mom.moment_x', 'CV0', 'poly', order(0, 5), par_svcj, v0_x, env_svcj, 'srjd_v0')
add('mdl_srjd.cond_mom.m', 'CV0', 'num', order(0, 5), par_svcj, v0_m('srjd', 'v'), scale=unit_scale(v0_m('srjd', 'v')))
add('mdl_srjd.cond_mom.m_x', 'CV0', 'num', order(0, 5), par_svcj, v0_x, scale=unit_scale(v0_x))


def v0_cx(a, p):
    return R.central([v0_x([i], p) for i in range(a[0] + 1)])[a[0]]


add('mdl_srjd.cond_cmom.cmoment_v', 'CV0', 'poly', order(0, 5), par_svcj, v0_cm('srjd', 'v'), env_svcj, 'srjd_v0')
add('mdl_srjd.cond_cmom.cmoment_x', 'CV0', 'poly', order(0, 5), par_svcj, v0_cx, env_svcj, 'srjd_v0')
add('mdl_srjd.cond_cmom.cm', 'CV0', 'num', order(0, 5), par_svcj, v0_cm('srjd', 'v'), scale=unit_scale(v0_m('srjd', 'v')))
add('mdl_srjd.cond_cmom.cm_x', 'CV0', 'num', order(0, 5), par_svcj, v0_cx, scale=unit_scale(v0_x))


def un_v(a, p):
    return R.stationary_v(p, a[0])


def un_cv(a, p):
    return R.central([R.stationary_v(p, i) for i in range(a[0] + 1)])[a[0]]


add('mdl_srjd.mom.moment_v', 'CV0', 'poly', choice(order(0), [True, False]), par_svcj, un_v, env_svcj,
    lambda a: KF['srjd_unt'] if a[1] else KF['srjd_un'], cost=lambda a: a[0])
add('mdl_srjd.cmom.cmoment_v', 'CV0', 'poly', order(0, 6), par_svcj, un_cv, env_svcj, 'srjd_un')

# SVCJ given v0 and unconditional
add('mdl_svcj.cond_mom.moment_y', 'CV0', 'poly', order(0, 4), par_svcj, v0_m('svcj'), env_svcj, 'svcj_v0')
add('mdl_svcj.cond_mom.m_y', 'CV0', 'num', order(0, 4), par_svcj, v0_m('svcj'), scale=unit_scale(v0_m('svcj')))
add('mdl_svcj.cond_cmom.cmoment_y', 'CV0', 'poly', order(0, 3), par_svcj, v0_cm('svcj'), env_svcj, 'svcj_v0')
add('mdl_svcj.cond_cmom.cm_y', 'CV0', 'num', order(0, 3), par_svcj, v0_cm('svcj'), scale=unit_scale(v0_m('svcj')))
add('mdl_svcj.mom.moment_y', 'CV0', 'poly', order(0, 3), par_svcj, lambda a, p: R.stationary_y('svcj', p, a[0]), env_svcj, 'svcj_un')
add('mdl_svcj.mom.unm_y', 'CV0', 'num', order(0, 3), par_svcj, lambda a, p: R.stationary_y('svcj', p, a[0]), scale=unit_scale(ref_m('svcj')))
add('mdl_svcj.cmom.cmoment_y', 'CV0', 'poly', order(0, 3), par_svcj, ref_cm('svcj'), env_svcj, 'svcj_un')
add('mdl_svcj.cmom.cm_y', 'CV0', 'num', order(0, 3), par_svcj, ref_cm('svcj'), scale=unit_scale(ref_m('svcj')))

# given jump histories
add('mdl_svvj.cond2_mom.moments_y_to', 'HIST', 'list', order(1, 4), par_hist, hist_m('svvj'), env_hist, 'svvj_m')
add('mdl_svvj.cond2_mom.moment_y', 'HIST', 'poly', order(0, 4), par_hist, hist_m('svvj'), env_hist, 'svvj_m')
add('mdl_svvj.cond2_mom.m', 'HIST', 'num', order(0, 4), par_hist, hist_m('svvj'), scale=unit_scale(hist_m('svvj')))
add('mdl_svvj.cond2_cmom.cmoments_y_to', 'HIST', 'list', order(1, 4), par_hist, hist_cm('svvj'), env_hist, 'svvj_cm',
    call=lambda f, a, p: f(a[0], *shows(p)))
add('mdl_svvj.cond2_cmom.cmoment_y', 'HIST', 'poly', order(0, 4), par_hist, hist_cm('svvj'), env_hist, 'svvj_cm')
add('mdl_svvj.cond2_cmom.cm', 'HIST', 'num', order(0, 4), par_hist, hist_cm('svvj'), scale=unit_scale(hist_m('svvj')))
_S2 = {0: ('e^{-kt}',) + KF['svvj_cm'][1:], 1: ('e^{-kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma') + FZ4 + ('rho',)}
add('mdl_svvj.cond2_cmom.simplify', 'HIST', 'poly', choice(order(1), [0, 1]), par_hist,
    lambda a, p: hist_cm('svvj')(a, p), env_hist, lambda a: _S2[a[1]],
    call=lambda f, a, p: f(get('mdl_svvj.cond2_cmom.cmoments_y_to')(a[0])[a[0]], a[1]), cost=lambda a: a[0])
add('mdl_svij.cond2_mom.moments_y_to', 'HIST', 'list', order(1, 4), par_hist, hist_m('svij'), env_hist, 'svij_m')
add('mdl_svij.cond2_mom.moment_y', 'HIST', 'poly', order(0, 4), par_hist, hist_m('svij'), env_hist, 'svij_m')
add('mdl_svij.cond2_mom.m', 'HIST', 'num', order(0, 4), par_hist, hist_m('svij'), scale=unit_scale(hist_m('svij')))
add('mdl_svij.cond2_cmom.cmoments_y_to', 'HIST', 'list', order(1, 4), par_hist, hist_cm('svij'), env_hist, 'svij_cm')
add('mdl_svij.cond2_cmom.cmoment_y', 'HIST', 'poly', order(0, 4), par_hist, hist_cm('svij'), env_hist, 'svij_cm')
add('mdl_svij.cond2_cmom.cm', 'HIST', 'num', order(0, 4), par_hist, hist_cm('svij'), scale=unit_scale(hist_m('svij')))
_wj = lambda f, a, p: f(a[0], tuple(p['jumpsize']))
add('mdl_svcj.cond2_mom.moments_y_to', 'HIST', 'list', order(1, 4), par_hist, hist_m('svcj'), env_hist, 'svcj_m2', call=_wj)
add('mdl_svcj.cond2_mom.moment_y', 'HIST', 'poly', order(0, 4), par_hist, hist_m('svcj'), env_hist, 'svcj_m2', call=_wj)
add('mdl_svcj.cond2_mom.m', 'HIST', 'num', order(0, 4), par_hist, hist_m('svcj'), scale=unit_scale(hist_m('svcj')))
add('mdl_svcj.cond2_cmom.cmoments_y_to', 'HIST', 'list', order(1, 4), par_hist, hist_cm('svcj'), env_hist, 'svcj_cm2', call=_wj)
add('mdl_svcj.cond2_cmom.cmoment_y', 'HIST', 'poly', order(0, 4), par_hist, hist_cm('svcj'), env_hist, 'svcj_cm2', call=_wj)
add('mdl_svcj.cond2_cmom.cm', 'HIST', 'num', order(0, 4), par_hist, hist_cm('svcj'), scale=unit_scale(hist_m('svcj')))
add('mdl_srjd.cond2_mom.moment_v', 'HIST', 'poly', order(0, 5), par_hist, hist_m('srjd', 'v'), env_hist, 'srjd2')
add('mdl_srjd.cond2_mom.m', 'HIST', 'num', order(0, 4), par_hist, hist_m('srjd', 'v'), scale=unit_scale(hist_m('srjd', 'v')))
add('mdl_srjd.cond2_mom.moment_IE', 'HIST', 'poly', order(0, 5), par_hist, lambda a, p: ito_hist([a[0], 0, 0], p), env_hist, 'srjd2')
add('mdl_srjd.cond2_cmom.cmoment_v', 'HIST', 'poly', order(0, 5), par_hist, hist_cm('srjd', 'v'), env_hist, 'srjd2')
add('mdl_srjd.cond2_cmom.cm', 'HIST', 'num', order(0, 4), par_hist, hist_cm('srjd', 'v'), scale=unit_scale(hist_m('srjd', 'v')))
add('ito_cond_mom.moment_IEII', 'HIST', 'poly', tup(3, 5), par_hist, ito_hist, env_hist, 'itoc')

# building blocks
add('ito_mom.moment_IEII', 'BLOCK', 'poly', tup(3, 6), par_ito, ito_plain, env_ito, 'ito')
add('ito_mom.moment_v', 'BLOCK', 'poly', order(0, 8), par_hist,
    lambda a, p: R.cir_stationary(a[0], p['k'], p['theta'], p['sigma'])[a[0]],
    lambda p: {'theta': _pw(p['theta']), 'sigma_v^2/k': _pw(M(p['sigma']) ** 2 / M(p['k']))}, ('theta', 'sigma_v^2/k'))
add('itos_mom.moment_IEI_IEII', 'BLOCK', 'poly', tup(5, 5), par_itos, itos_ref, env_itos, 'itos')
add('itos_mom.moment_IEI_IEII', 'BLOCK', 'dict', tup(5, 4), par_itos, itos_ref, env_itos, 'itos', call=lambda f, a, p: f(*a, return_all=True))
add('mdl_srjd.cond_ie_iez_mom.moment_ie', 'BLOCK', 'poly', order(0, 5), par_svcj, lambda a, p: ie_iez([a[0], 0], p), env_svcj, 'srjd_v0')
add('mdl_srjd.cond_ie_iez_mom.moment_ie_iez', 'BLOCK', 'poly', tup(2, 5), par_svcj, ie_iez, env_svcj, 'srjd_v0')
add('mdl_srjd.cond_ie_iez_mom.m_ie', 'BLOCK', 'num', order(0, 5), par_svcj, lambda a, p: ie_iez([a[0], 0], p))
add('mdl_srjd.cond_ie_iez_mom.m_ie_iez', 'BLOCK', 'num', tup(2, 5), par_svcj, ie_iez)
add('mdl_srjd.cond_ie_iez_cmom.moment_ie', 'BLOCK', 'poly', order(0, 5), par_svcj, lambda a, p: ie_iez([a[0], 0], p), env_svcj, 'srjd_ev')
add('mdl_srjd.cond_ie_iez_cmom.cmoment_ie_iez', 'BLOCK', 'poly', tup(2, 5), par_svcj, ie_iez_c, env_svcj, 'srjd_ev')
add('mdl_srjd.cond_ie_iez_cmom.m_ie', 'BLOCK', 'num', order(0, 5), par_svcj, lambda a, p: ie_iez([a[0], 0], p))
add('mdl_srjd.cond_ie_iez_cmom.cm_ie_iez', 'BLOCK', 'num', tup(2, 5), par_svcj, ie_iez_c)
add('mdl_svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', 'BLOCK', 'poly', tup(6, 4), par_svcj, joint6, env_svcj, 'joint6')
add('mdl_svcj.cond_ieii_ieziziz_mom.m_ieii_ieziziz', 'BLOCK', 'num', tup(6, 3), par_svcj, joint6, call=lambda f, a, p: f(tuple(a), p))

# compound Poisson sums
add('cpp_mom.mnorm', 'CPP', 'poly', order(0, 8), par_cpp, lambda a, p: R.normal_mom(a[0], p['mu'], M(p['sigma']) ** 2), env_cpp, ('mu', 'sigma^2'))
add('cpp_mom.mcpp', 'CPP', 'poly', order(0, 7), par_cpp, lambda a, p: R.cpp_moment(a[0], M(p['lambda']) * M(p['h']), p['mu'], M(p['sigma']) ** 2), env_cpp, ('lambda*h', 'mu', 'sigma'))
add('cpp_mom.cmcpp', 'CPP', 'poly', order(0, 7), par_cpp,
    lambda a, p: R.central([R.cpp_moment(i, M(p['lambda']) * M(p['h']), p['mu'], M(p['sigma']) ** 2) for i in range(a[0] + 1)])[a[0]], env_cpp, ('lambda*h', 'mu', 'sigma'))
add('mdl_srjd.iez_mom.moment_IEZ', 'CPP', 'poly', order(0, 7), par_iez, jj, env_iez, 'iez')
add('mdl_srjd.iez_mom.m', 'CPP', 'num', order(0, 7), par_iez, jj, scale=lambda a, p: jj(a, p))
add('mdl_srjd.iez_cmom.cmoment_IEZ', 'CPP', 'poly', order(0, 6), par_iez, iez_cm, env_iez, 'iez')
add('mdl_srjd.iez_cmom.cm', 'CPP', 'num', order(0, 6), par_iez, iez_cm, scale=lambda a, p: jj(a, p))
add('mdl_svcj.ieziziz_mom.moment_ieziziz', 'CPP', 'poly', tup(3, 6), par_iez, jj, env_iez, 'ieziziz')
add('mdl_svcj.ieziziz_mom.m_ieziziz', 'CPP', 'num', tup(3, 5), par_svcj, jj_h, call=lambda f, a, p: f(tuple(a), p))

# ------------------------------------------------------------------ random formulas
def rand_poly(kf, seed, p=None, nterm=None, jlen=None):
    """an arbitrary formula with the given key layout"""
    import random
    from ajdmom.poly import Poly
    rng = random.Random('poly-%s' % (seed,))
    wild = random.Random('wild-%s' % (seed,)).random() < 0.25      # high powers, coefficients that need every digit
    two = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}' in kf
    njump = len(p['jumpsize']) if p and 'jumpsize' in p else 0
    P = Poly()
    P.set_keyfor(kf)
    for _ in range(nterm or rng.randint(1, 7)):
        key = []
        L = rng.randint(0, 3) if jlen is None else jlen
        for n in kf:
            if n.startswith('(n_1m'):
                t = []
                for _i in range(rng.randint(0, 3)):
                    a, b = rng.randint(0, 3), rng.randint(0, 3)
                    if a == b == 0:
                        a = 1
                    t.append((a, b, rng.randint(0, 3)))
                key.append(tuple(sorted(set(t))))
            elif n.startswith('e^') and two:
                key.append((rng.randint(-2, 3), rng.randint(-2, 3)))
            elif n in ('l_{1:n}',):
                key.append(tuple(rng.randint(-2, 2) for _i in range(L)))
            elif n == 'o_{1:n}':
                key.append(tuple(rng.randint(0, 2) for _i in range(L)))
            elif n in ('p_{2:n}', 'o_{2:n}'):
                key.append(tuple(rng.randint(-2, 2) for _i in range(max(0, L - 1))))
            elif n == 'q_{2:n}':
                key.append(tuple(rng.randint(0, 2) for _i in range(max(0, L - 1))))
            elif n == 'J_{1:n}':
                key.append(tuple(rng.randint(0, 2) for _i in range(njump)))
            elif n.startswith('e^'):
                key.append(rng.randint(-9, 9) if wild else rng.randint(-3, 3))
            elif n == 'sqrt(1-rho^2)':
                key.append(2 * (rng.randint(0, 7) if wild else rng.randint(0, 3)))
            else:
                key.append(rng.randint(0, 12) if wild else rng.randint(0, 4))
        c = 0
        while c == 0:
            c = Fr(rng.randint(-30, 30), rng.choice([1, 1, 2, 3, 8, 24]))
            if wild and rng.random() < 0.5:
                c = c + Fr(rng.randint(-10 ** 18, 10 ** 18), rng.choice([1, 2, 3, 7]) ** rng.randint(1, 30) * rng.choice([1, math.factorial(20)]))
        P[tuple(key)] = c
    return P


def _rp(kf):
    return lambda a, p: cached(('rp', kf, a[0], pk(p)), lambda: rand_poly(KF[kf] if isinstance(kf, str) else kf, a[0], p))


def _rv(kf, env):
    return lambda a, p: value(_rp(kf)(a, p), env(p))[0]


def _rs(kf, env):
    return lambda a, p: value(_rp(kf)(a, p), env(p))[1] / 1000


seeds = lambda: Space(lambda n: [[n]] if n > 0 else [], 1)
NEVAL = 6


def env_cond1f_s(p):
    return env_cond1f(p)


def env_iez0(p):
    k, h = M(p['k']), M(p['h'])
    d = env_iez(dict(p, lb=0, ub=p['h']))
    return d


KF['cond1f_2'] = ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho')
for _mod, _kf, _par, _env in (
        ('mdl_1fsv.mom', '1f', par_1f, env_1f), ('mdl_1fsv.cmom', '1fc', par_1f, env_1f),
        ('mdl_1fsvj.mom', '1fj', par_1f, env_1f), ('mdl_1fsvj.cmom', '1fjc', par_1f, env_1f),
        ('mdl_2fsv.mom', '2f', par_2f, env_2f), ('mdl_2fsv.cmom', '2fc', par_2f, env_2f),
        ('mdl_2fsvj.mom', '2fj', par_2f, env_2f), ('mdl_2fsvj.cmom', '2fjc', par_2f, env_2f),
        ('mdl_1fsv.cond_cmom', 'cond1f_2', par_1fc, env_cond1f),
        ('mdl_svvj.cond2_mom', 'svvj_m', par_hist, env_hist), ('mdl_svvj.cond2_cmom', 'svvj_cm', par_hist, env_hist),
        ('mdl_svij.cond2_mom', 'svij_m', par_hist, env_hist), ('mdl_svij.cond2_cmom', 'svij_cm', par_hist, env_hist),
        ('mdl_svcj.cond2_mom', 'svcj_m2', par_hist, env_hist), ('mdl_svcj.cond2_cmom', 'svcj_cm2', par_hist, env_hist),
        ('mdl_srjd.cond2_mom', 'srjd2', par_hist, env_hist), ('mdl_srjd.cond_mom', 'srjd_v0', par_svcj, env_svcj),
        ('mdl_srjd.cond_ie_iez_mom', 'srjd_v0', par_svcj, env_svcj), ('mdl_srjd.cond_ie_iez_cmom', 'srjd_ev', par_svcj, env_svcj),
        ('mdl_srjd.iez_mom', 'iez', par_iez, env_iez), ('mdl_svcj.cond_mom', 'svcj_v0', par_svcj, env_svcj),
        ('mdl_svcj.mom', 'svcj_un', par_svcj, env_svcj), ('mdl_svcj.cond_ieii_ieziziz_mom', 'joint6', par_svcj, env_svcj),
        ('mdl_svcj.ieziziz_mom', 'ieziziz', par_svcj, env_iez0)):
    add(_mod + '.poly2num', 'EVAL', 'num', seeds(), _par, _rv(_kf, _env), call=lambda f, a, p, g=_rp(_kf): f(g(a, p), p), scale=_rs(_kf, _env))
    TABLE[-1].operand = _kf
    if _mod[4:8] in ('1fsv', '2fsv') and 'cond' not in _mod:
        _W = (W1 if _mod[4] == '1' else W2) + (WJ if _mod.split('.')[0].endswith('j') else [])
        add(_mod + '.dpoly', 'DERIV', 'poly', with_wrt(seeds(), _W), _par, deriv(_rv(_kf, _env)), _env, _kf,
            call=lambda f, a, p, g=_rp(_kf): f(g(a, p), a[-1]))
        TABLE[-1].operand = _kf


# rewriting of arbitrary formulas
def _rewrite(name, kf, par, env, kfo, opts, call):
    add(name, 'REWRITE', 'poly', choice(seeds(), opts), par, _rv(kf, env), env, kfo, call=lambda f, a, p, g=_rp(kf): call(f, g(a, p), a))
    TABLE[-1].operand = kf


_rewrite('mdl_1fsv.cond_cmom.simplify', 'cond1f', par_1fc, env_cond1f, lambda a: _SK[a[1]], [1, 2, 3], lambda f, P, a: f(P, a[1]))
_rewrite('mdl_svvj.cond2_cmom.simplify', 'svvj_cm', par_hist, env_hist, lambda a: _S2[a[1]], [0, 1], lambda f, P, a: f(P, a[1]))
_rewrite('utils.simplify_rho', '1f', par_1f, env_1f, lambda a: KF['1f'][:7], [7], lambda f, P, a: f(P, a[1]))
_rewrite('utils.simplify_rho', '1fjc', par_1f, env_1f, lambda a: tuple(n for n in KF['1fjc'] if n[0] != 's' or n == 'sigma_v' or n == 'sigma_j'),
         [6], lambda f, P, a: f(P, a[1]))


def _nomu(P):
    from ajdmom.poly import Poly
    Q_ = Poly()
    Q_.set_keyfor(P.keyfor)
    for k, v in P.items():
        Q_[k[:3] + (0,) + k[4:]] = v
    return Q_


add('mdl_svcj.cmom.remove_mu_column', 'REWRITE', 'poly', seeds(), par_svcj, lambda a, p: value(_nomu(_rp('svcj_un')(a, p)), env_svcj(p))[0], env_svcj,
    lambda a: ('e^{-kt}',) + tuple(n for n in KF['svcj_un'][1:] if n != 'mu'), call=lambda f, a, p: f(_nomu(_rp('svcj_un')(a, p))))


class Joined(dict):
    keyfor = ()


def _classify(f, a, p):
    """classify must split the terms by summation level, exactly; joined back for evaluation"""
    P = _rp('svvj_cm')(a, p)
    if a[1]:                     # an awkward mixture: only one or two levels present
        P = rand_poly(KF['svvj_cm'], 'c%d' % a[0], p, jlen=a[1])
        for k, v in rand_poly(KF['svvj_cm'], 'd%d' % a[0], p, jlen=0 if a[1] % 2 else 3).items():
            P[k] = v
    subs = f(P)
    if not isinstance(subs, list):
        raise Mismatch('expected a list of formulas')
    J = Joined()
    J.keyfor = P.keyfor
    short = P.keyfor[:6] + P.keyfor[10:]
    seen = []
    for s in subs:
        lv = set()
        for k, v in s.items():
            if tuple(s.keyfor) == tuple(short):
                k = k[:6] + ((), (), (), ()) + k[6:]
            elif tuple(s.keyfor) != tuple(P.keyfor):
                raise Mismatch('sub-formula has key layout %r' % (s.keyfor,))
            if k in J:
                raise Mismatch('a term appears in two sub-formulas')
            J[k] = v
            lv.add(len(k[6]))
        if len(lv) != 1:
            raise Mismatch('sub-formula mixes summation levels %r' % (sorted(lv),))
        seen.append(lv.pop())
    if seen != sorted(seen):
        raise Mismatch('sub-formulas are not in order of summation level')
    if dict(J) != dict(P.data):
        raise Mismatch('terms were changed or lost by the classification')
    return J


add('mdl_svvj.cond2_cmom.classify', 'REWRITE', 'self', choice(seeds(), [0, 1, 2, 3]), par_hist, None, env_hist, 'svvj_cm', call=_classify)


# the jump-history sums themselves
def _fzargs(a, p):
    import random
    rng = random.Random('fz-%s' % a[0])
    n = rng.randint(0, 4)
    l = tuple(rng.randint(-2, 2) for _ in range(n))
    o = tuple(rng.randint(0, 2) for _ in range(n))
    q = tuple(rng.randint(-2, 2) for _ in range(max(0, n - 1)))
    r = tuple(rng.randint(0, 2) for _ in range(max(0, n - 1)))
    return l, o, q, r


def _fz4(a, p):
    return fz_value(*_fzargs(a, p), p['k'], p['jumptime'], p['jumpsize'])


def _fz2(a, p):
    l, o, q, r = _fzargs(a, p)
    return fz_value(l, (0,) * len(l), q, (0,) * len(q), p['k'], p['jumptime'], p['jumpsize'])


add('utils.fZ', 'EVAL', 'num', seeds(), par_hist, _fz4, call=lambda f, a, p: f(*_fzargs(a, p), p['k'], p['jumptime'], p['jumpsize']))
add('mdl_srjd.cond2_mom.fZ', 'EVAL', 'num', seeds(), par_hist, _fz2,
    call=lambda f, a, p: (lambda l, o, q, r: f(l, q, p['k'], p['jumptime'], p['jumpsize']))(*_fzargs(a, p)))


def _fzi(f, a, p):
    """sum of the single-index values over the library's own enumeration of index combinations"""
    l, o, q, r = _fzargs(a, p)
    J = p['jumpsize']
    if not l or not J:
        return 0.0 if l else 1.0
    idx = get('utils.multilevel_index')(len(l), len(J))
    return sum(f(l, o, q, r, p['k'], p['jumptime'], J, list(i)) for i in idx)


add('utils.fZ_each_index', 'EVAL', 'num', seeds(), par_hist, _fz4, call=_fzi)

# combinatorial helpers
add('utils.cmnorm', 'CPP', 'poly', order(0), par_cpp, lambda a, p: R.normal_mom(a[0], 0, M(p['sigma']) ** 2), env_cpp, ('sigma',))


def _int(f):
    return lambda a, p: mpf(f(a))


def _prod(r):
    x = 1
    for i in r:
        x *= i
    return x


add('utils.dbfactorial', 'CPP', 'num', order(0), par_cpp, _int(lambda a: _prod(range(a[0], 0, -2))), call=lambda f, a, p: f(a[0]))
add('utils.comb', 'CPP', 'num', tup(3), par_cpp, _int(lambda a: math.factorial(sum(a)) // _prod(math.factorial(x) for x in a)),
    call=lambda f, a, p: f(sum(a), list(a)))


def shows(p):
    """whether this caller asks for the in-process messages: no answer may depend on it"""
    return [True] if sum(Fr(x).numerator for x in p.values() if not isinstance(x, (list, tuple, dict, str))) % 3 == 0 else []


def _edit_index(raw, p):
    """callers own what they are given: an edit must not reach any later answer"""
    if raw and isinstance(raw[0], list) and not shows(p):
        raw[0][0] += 7
        raw.append(raw[-1])


def _mlc(f, a, p):
    n, m = 1 + a[0], a[1]
    raw = f(n, m, *shows(p))
    got = [list(x) for x in raw]
    _edit_index(raw, p)
    if sorted(got) != sorted(_comps(m, n)):
        raise Mismatch('splits of %d into %d parts are not each listed exactly once' % (m, n))
    return len(got)


add('utils.multilevel_comb', 'CPP', 'num', pair(), par_cpp, _int(lambda a: math.comb(a[0] + a[1], a[0])), call=_mlc)


def _mli(f, a, p):
    import itertools
    n, m = 1 + a[0], 1 + a[1]
    raw = f(n, m, *shows(p))
    got = [tuple(x) for x in raw]
    _edit_index(raw, p)
    if sorted(got) != sorted(itertools.product(range(m), repeat=n)):
        raise Mismatch('index combinations are not each listed exactly once')
    return len(got)


add('utils.multilevel_index', 'CPP', 'num', pair(), par_cpp, _int(lambda a: (1 + a[1]) ** (1 + a[0])), call=_mli)


# documented integrals the recursions are built from (left out where a module no longer has them)
def _int_es(a, t0, t, m):
    """integral of e^{a s} s^m over [t0, t], as a power series"""
    tot, c, k = mpf(0), mpf(1), 0
    while True:
        term = c * (t ** (k + m + 1) - t0 ** (k + m + 1)) / (k + m + 1)
        tot += term
        k += 1
        c = c * a / k
        if k > 30 and abs(term) < mpf(10) ** (-70):
            return tot


def _nm(lo=-6, hi=7):
    """order = power of s; the rate runs over a range"""
    return Space(lambda n: [[i, n] for i in range(lo, hi)])


def helper(name, args, par, ref, env, kf, pre=lambda a: a):
    def call(f, a, p):
        return f(*pre(a))
    add(name, 'HELP', 'poly', args, par, ref, env, kf, call=call)
    TABLE[-1].optional = len(pre(args.exact(2)[0]))


helper('ito_mom.int_et', _nm(), par_hist, lambda a, p: _int_es(a[0] * M(p['k']), mpf(0), M(p['h']), a[1]),
       lambda p: {'e^{k[t-(n-1)h]}': _ex(M(p['k']) * M(p['h'])), '[t-(n-1)h]': _pw(p['h']), 'k^{-}': _pw(1 / M(p['k']))},
       ('e^{k[t-(n-1)h]}', '[t-(n-1)h]', 'k^{-}'))
helper('itos_mom.int_et', Space(lambda n: [[i, j, n] for i in range(-3, 5) for j in range(-2, 5) if i * j >= 0]), par_2f,
       lambda a, p: _int_es(a[0] * M(p['k1']) + a[1] * M(p['k2']), mpf(0), M(p['h']), a[2]),
       lambda p: {'(n1*k1+n2*k2)^{-}': lambda t: (t[0] * M(p['k1']) + t[1] * M(p['k2'])) ** (-t[2]) if t[2] else mpf(1),
                  'e^{(n1*k1+n2*k2)[t-(n-1)h]}': lambda t: exp((t[0] * M(p['k1']) + t[1] * M(p['k2'])) * M(p['h'])), '[t-(n-1)h]': _pw(p['h'])},
       ('(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]'))
_half = lambda p: M(p['h']) / 3
helper('ito_cond_mom.int_et_fZ', choice(_nm(), [0, 1, 3]), par_hist,
       lambda a, p: _int_es(a[0] * M(p['k']), _half(p) if a[2] else mpf(0), M(p['h']), a[1]),
       lambda p: {'e^{kt}': _ex(M(p['k']) * M(p['h'])), 't': _pw(p['h']), 'k^{-}': _pw(1 / M(p['k'])),
                  'e^{k(s_i1 v...v s_in)}': _ex(M(p['k']) * _half(p)), '(s_i1 v...v s_in)': _pw(_half(p))},
       ('e^{kt}', 't', 'k^{-}', 'e^{k(s_i1 v...v s_in)}', '(s_i1 v...v s_in)'))
