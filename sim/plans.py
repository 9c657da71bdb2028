"""Simulation plans: what every caller does in one run, and which faults are armed.

A plan is plain data and depends only on (property, tier, VERIF_SEED, index).
deck() covers every query and argument list up to a cost bound at least once;
more() goes on for ever with random combinations.
"""
import json
import math
import os
import random

import queries as q
import worlds as w

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'costs.json')) as _f:
    _COST = {k: {int(n): tuple(v) for n, v in d.items()} for k, d in json.load(_f).items()}
SMALL = (0.004, 0.02)
MAXSEED = 60


def levels(Q):
    """{order: (library seconds, checking seconds)}, as measured"""
    if Q.fam in ('EVAL', 'DERIV', 'REWRITE'):
        return {n: SMALL for n in range(Q.args.lo, MAXSEED)}
    if Q.fam == 'HELP':
        return {n: (0.002, 0.003) for n in range(16)}
    d = _COST.get('%d %s' % (Q.ix, Q.name))
    if d and Q.kind == 'num' and Q.name.startswith('mdl_srjd.cond2'):
        d = {n: v for n, v in d.items() if n <= 7}        # the sums over jumps grow with (number of jumps)^order
    return d or {Q.args.lo + i: (0.05, 0.05) for i in range(3)}


def sel(*fams, name=None, no=None):
    out = []
    for Q in q.TABLE:
        if Q.fam in fams and (name is None or any(Q.name.startswith(x) for x in name)) and not (no and no(Q)):
            out.append(Q)
    return out


isd = lambda Q: Q.fn[0] == 'd' and Q.fn != 'dbfactorial'
CHOICE = {
    'C04': lambda: sel('SV1', no=isd),
    'C05': lambda: sel('SV2', no=isd),
    'C06': lambda: [Q for Q in sel('SV1', 'SV2') if isd(Q)] + sel('DERIV'),
    'C07': lambda: sel('CV0', name=('mdl_1fsv.cond', 'mdl_srjd.cond_', 'mdl_svcj.cond_')),
    'C08': lambda: sel('CV0', name=('mdl_srjd.mom', 'mdl_srjd.cmom', 'mdl_svcj.mom', 'mdl_svcj.cmom')),
    'C09': lambda: sel('HIST', name=('mdl_svvj', 'mdl_svij', 'mdl_svcj')),
    'C10': lambda: sel('HIST', name=('mdl_srjd',)),
    'C11': lambda: sel('BLOCK', 'HELP') + sel('HIST', name=('ito_cond',)),
    'C12': lambda: sel('CPP'),
    'C13': lambda: sel('EVAL', 'REWRITE') + [Q for Q in sel('HIST', 'CV0') if Q.fn == 'simplify'],
}
CHOICE['C02'] = CHOICE['C03'] = CHOICE['C19'] = lambda: [Q for Q in q.TABLE if Q.fam != 'HELP']
WORLD = {'C01': 'algebra', 'C14': 'sampler', 'C15': 'sampler', 'C16': 'random', 'C17': 'export', 'C18': 'export', 'C20': 'refuse'}
MODE = {'C02': 'diff', 'C03': 'diff', 'C19': 'form'}
PROPS = ['C%02d' % i for i in range(1, 22)]

# (largest single library cost, CPU seconds for the whole deck, wall seconds for everything)
TIER = {'quick': (7.5, 130.0, 26.0), 'thorough': (25.0, 3600.0, 900.0)}
DEEPER = {'quick': {'C04': (8.5, 260.0, 40.0), 'C05': (17.0, 300.0, 40.0), 'C06': (7.5, 260.0, 40.0), 'C07': (7.5, 180.0, 40.0), 'C09': (7.5, 220.0, 40.0),
                    'C11': (7.5, 360.0, 60.0)}, 'thorough': {}}
WALL = {'quick': {'C02': 25, 'C03': 25, 'C16': 12, 'C17': 15, 'C18': 15, 'C20': 15, 'C01': 15, 'C21': 20}, 'thorough': {}}
RANDOM = {'quick': {'C01': 3500, 'C02': 260, 'C03': 260, 'C14': 1500, 'C15': 900, 'C16': 1100, 'C17': 2400, 'C18': 2400, 'C20': 1200}, 'thorough': {}}
RANDOM['quick'].update({'C%02d' % i: 400 for i in list(range(4, 14)) + [19]})
RANDOM['quick'].update({'C21': 900, 'C08': 600, 'C10': 400, 'C12': 500, 'C13': 700})
KINDS = ('KeyboardInterrupt', 'MemoryError')


def fault(rng, lib, gran):
    if gran == 'op':
        return None
    est = lib * (1.5e6 if gran == 'line' else 2e5)
    hi = math.log10(max(est, 6))
    r = rng.random()
    if r < 0.15:
        at = rng.randint(1, 4)
    elif r < 0.7:
        at = int(10 ** rng.uniform(0, hi))
    else:
        at = int(10 ** hi * rng.random())
    return [max(1, at), rng.choice(KINDS)]


def gran_of(lib):
    return 'line' if lib < 0.06 else 'call'


def ps_name(prop, seed, block, k):
    return '%s.%s.%s.%s' % (prop, seed, block, k)


def number(rng, n):
    return 16 * rng.randrange(max(1, n // 2)) + (rng.randint(1, 15) if rng.random() < 0.5 else 0)


def npool(Q):
    return 8 if Q.fam == 'HIST' or Q.par_hist else 4


for _Q in q.TABLE:
    _Q.par_hist = _Q.fam in ('HIST',) or 'fZ' in _Q.name or 'cond2' in _Q.name


def mkop(rng, Q, a, lib, ps, gran, pfault=0.3, edits=0.2):
    op = {'q': Q.ix, 'name': Q.name, 'a': list(a), 'ps': ps}
    if rng.random() < pfault:
        f = fault(rng, lib, gran)
        if f:
            op['fault'] = f
    if rng.random() < edits:
        op['edit'] = rng.randint(1, 3)
    r = rng.random()
    if r < 0.2:
        op['share'] = 1
    elif r < 0.5:
        op['reuse'] = 1
    return op


def twin(rng, Q, op, lib, gran, kind=None):
    """the same question with one parameter changed"""
    head, _, k = op['ps'].rpartition('.')
    return mkop(rng, Q, op['a'], lib, '%s.%d' % (head, int(k) // 16 * 16 + (kind or rng.randint(1, 15) if int(k) % 16 == 0 else 0)), gran)


def wrap(prop, index, rng, callers, lib, gran, **kw):
    n = max(8, sum(len(c) for c in callers))
    est = max(20, lib * (1.5e6 if gran == 'line' else 2e5))
    mean = rng.choice([2, 10, 60, max(2, int(est / 30)), max(2, int(est / 4))])
    mean = max(mean, int(est / 3000))
    if lib > 0.3:
        mean = max(mean, 50)
    d = {'prop': prop, 'index': index, 'world': WORLD.get(prop, 'query'), 'seed': rng.getrandbits(31), 'gran': gran, 'mean': mean,
         'callers': callers, 'est': round(lib * 1.4 + 0.003 * n, 4)}
    d['mode'] = MODE.get(prop, 'value')
    d.update(kw)
    return d


# ------------------------------------------------------------------ query properties
def weight(Q):
    """worth of checking a query exhaustively at one more order, relative to its cost"""
    if Q.fn in ('cov_yy', 'cmoment_y', 'moment_y', 'moment_IEI_IEII', 'moment_IEII', 'moment_ieii_ieziziz'):
        return 3.0 if Q.kind != 'dict' else 1.0
    return {'poly': 2.0, 'list': 2.0, 'dict': 1.0}.get(Q.kind, 1.0)


def bounded(qs, cap, budget, rng, per=1.0):
    """[(query, args, order, lib, check)]: whole orders of whole queries, the cheapest first, until the budget is used"""
    lv = []
    for Q in qs:
        base = 0
        for n, (lib, chk) in sorted(levels(Q).items()):
            al = Q.args.exact(n)
            if not al:
                continue
            if lib > cap or lib + chk > 2 * cap + 1:
                break
            one = lib * 1.6 + chk * per + 0.004
            base = max(base, one * len(al) / weight(Q))     # never a high order before a low one
            lv.append((base, Q.ix, n, al, one, lib, chk))
    lv.sort(key=lambda x: x[:3])
    out = []
    left = budget
    full = set()
    for base, ix, n, al, one, lib, chk in lv:
        if ix in full:
            continue
        k = len(al)
        if one * k > left:
            full.add(ix)
            k = min(k, int(left / one)) if left > 0 else 0
            if n <= q.TABLE[ix].args.lo + 2:
                k = max(k, 1)
            if not k:
                continue
            al = rng.sample(al, k)
        left -= one * k
        out += [(q.TABLE[ix], a, n, lib, chk) for a in al]
    # and a few looks at the orders beyond
    got = {(Q.ix, n) for Q, a, n, lib, chk in out}
    rest = sorted((one, ix, n, al, lib, chk) for base, ix, n, al, one, lib, chk in lv if (ix, n) not in got)
    left = budget / 4
    for one, ix, n, al, lib, chk in rest:
        if one > left:
            break
        mine = rng.sample(al, min(len(al), 8 if one < 0.5 else 4 if one < 1 else 1, int(left / one)))
        left -= one * len(mine)
        out += [(q.TABLE[ix], a, n, lib, chk) for a in mine]
    return out


def query_deck(prop, tier, seed):
    cap, cpu, _ = DEEPER[tier].get(prop, TIER[tier])
    rng = random.Random('deck-%s-%s-%s' % (prop, tier, seed))
    qs = CHOICE[prop]()
    mode = MODE.get(prop, 'value')
    per = 1.0 if mode == 'value' else 0.05
    items = []
    for Q in qs:
        if Q.fam in ('EVAL', 'DERIV', 'REWRITE'):
            lim = {'quick': 14, 'thorough': 55}[tier]
            if mode == 'form':
                lim = 3
            al = Q.args.upto(lim)
            if len(al) > 4 * lim:
                al = rng.sample(al, 4 * lim)
            items += [(Q, a, 1) + SMALL for a in al]
    items += bounded([Q for Q in qs if Q.fam not in ('EVAL', 'DERIV', 'REWRITE')], cap, cpu, rng, per)
    rng.shuffle(items)
    heavy = [x for x in items if x[3] >= 0.25]
    mid = [x for x in items if 0.06 <= x[3] < 0.25]
    cheap = [x for x in items if x[3] < 0.06]
    plans = []
    count = {}

    def op(x, gran, **kw):
        Q, a, n, lib, chk = x
        k = count[Q.ix] = count.get(Q.ix, rng.randrange(6)) + 1
        return mkop(rng, Q, a, lib, ps_name('d', seed, 0, k // 2 % (npool(Q) // 2) * 16 + (k % 2) * rng.randint(1, 15)), gran, **kw)

    def emit(callers, lib, gran):
        rng_ = random.Random('wrap-%s-%s-%s-%d' % (prop, tier, seed, len(plans)))
        plans.append(wrap(prop, len(plans), rng_, callers, lib, gran))
    for x in heavy:
        cs = [[op(x, 'call', pfault=0.2)]]
        for _ in range(rng.randint(0, 2)):
            if cheap:
                cs.append([op(rng.choice(cheap), 'call')])
        rng.shuffle(cs)
        emit(cs, x[3], 'call')
    while mid:
        g = [mid.pop() for _ in range(min(len(mid), rng.randint(1, 3)))]
        cs = [[] for _ in range(rng.randint(1, 3))]
        for x in g:
            rng.choice(cs).append(op(x, 'call'))
        for c in cs:
            if not c and cheap:
                c.append(op(rng.choice(cheap), 'call'))
        emit([c for c in cs if c], sum(x[3] for x in g), 'call')
    while cheap:
        g = [cheap.pop() for _ in range(min(len(cheap), rng.randint(3, 9)))]
        cs = [[] for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        for x in g:
            o = op(x, 'line')
            rng.choice(cs).append(o)
            if rng.random() < 0.2:
                rng.choice(cs).append(twin(rng, x[0], o, x[3], 'line'))
        emit([c for c in cs if c], sum(x[3] for x in g), 'line')
    return plans


_pick = {}


def picks(prop, cap):
    k = (prop, cap)
    if k not in _pick:
        out = []
        for Q in CHOICE[prop]():
            out.append((Q, [n for n, (l, c) in levels(Q).items() if l <= cap and l + c < 6 * cap + 0.2 and Q.args.exact(n)]))
        _pick[k] = [x for x in out if x[1]]
    return _pick[k]


def one_query(prop, rng, cap):
    Q, ls = rng.choice(picks(prop, cap))
    if Q.fam in ('EVAL', 'DERIV', 'REWRITE'):
        n = rng.randint(1, MAXSEED - 1) if rng.random() < 0.5 else rng.randint(60, 10 ** 6)
    else:
        n = rng.choice(ls) if rng.random() < 0.5 else max(rng.choice(ls), rng.choice(ls))
    a = rng.choice(Q.args.exact(n))
    return Q, a, levels(Q).get(n, SMALL)[0]


def query_more(prop, tier, seed, i):
    rng = random.Random('more-%s-%s-%d' % (prop, seed, i))
    cap = {'quick': 0.12, 'thorough': 1.2}[tier]
    if rng.random() < 0.7:
        cap = 0.05
    block = 1 + i // (6 if tier == 'quick' else 20)
    cs, tot = [], 0
    nq = rng.randint(2, 10)
    got = [one_query(prop, rng, cap) for _ in range(nq)]
    gran = gran_of(max(x[2] for x in got))
    cs = [[] for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    pf = rng.choice([0, 0.3, 0.6])
    x = rng.random()
    many, tiny = x < 0.15, x > 0.92
    for Q, a, lib in got:
        tot += lib
        small = many and Q.par_hist and (Q.fam != 'HIST' or sum(x for x in a if isinstance(x, int)) <= 2)
        o = mkop(rng, Q, a, lib, ps_name('d.many' if small else 'd.tiny' if tiny else 'd', seed, block, number(rng, npool(Q))), gran, pf)
        rng.choice(cs).append(o)
        if rng.random() < 0.25:
            tot += lib
            rng.choice(cs).append(twin(rng, Q, o, lib, gran))
    return wrap(prop, i, rng, [c for c in cs if c], tot, gran)


# -- histories (C02, C03): few queries, asked again and again
def model_of(Q):
    m = Q.name.split('.')[0]
    return {'ito_cond_mom': 'mdl_svvj', 'mdl_svij': 'mdl_svvj', 'utils': 'mdl_svvj', 'itos_mom': 'mdl_2fsv', 'mdl_2fsvj': 'mdl_2fsv',
            'ito_mom': 'mdl_1fsv', 'mdl_1fsvj': 'mdl_1fsv', 'cpp_mom': 'mdl_1fsv'}.get(m, m)


_th = {}


def theme(name):
    if not _th:
        for Q in q.TABLE:
            ls = [n for n, (l, c) in levels(Q).items() if l <= 0.16 and Q.args.exact(n)]
            if ls:
                _th.setdefault(model_of(Q), []).append((Q, ls))
                _th.setdefault('all', []).append((Q, ls))
    return _th if name is None else _th[name]


def history(prop, tier, seed, i):
    rng = random.Random('hist-%s-%s-%d' % (prop, seed, i))
    names = sorted(theme(None))
    nm = names[i % len(names)]
    pool = theme(nm)
    block = i // (len(names) * (10 if tier == 'quick' else 60))
    brng = random.Random('histpool-%s-%s-%s-%s' % (prop, seed, nm, block))
    # the distinct questions of this block, and of this run
    qs = []
    for _ in range(60):
        Q, ls = brng.choice(pool)
        n = brng.choice(ls)
        if Q.fam in ('EVAL', 'DERIV', 'REWRITE'):
            n = brng.randint(1, 12)
        for _k in range(brng.choice([1, 2, 3])):            # same query, different arguments / parameters
            a = brng.choice(Q.args.exact(n if brng.random() < 0.5 else brng.choice(ls)) or Q.args.exact(n))
            lib = levels(Q).get(sum(x for x in a if isinstance(x, int) and not isinstance(x, bool)), SMALL)[0]
            qs.append((Q, a, lib, ps_name('h', seed, block, number(brng, 4))))
    k = rng.randint(2, 7)
    mine = [rng.choice(qs) for _ in range(k)]
    if rng.random() < 0.5:                                   # all of one kind of query
        Q0 = mine[0][0]
        same = [x for x in qs if x[0] is Q0]
        mine = [rng.choice(same + mine) for _ in range(k)]
    tot = 0
    nops = rng.randint(3, 14)
    cs = [[] for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))]
    gran = rng.choice(['line', 'line', 'call']) if max(x[2] for x in mine) < 0.09 else 'call'
    pf = rng.choice([0, 0, 0.25]) if prop == 'C02' else rng.choice([0.4, 0.7, 1.0])
    ed = rng.choice([0, 0.3, 0.7])
    for _ in range(nops):
        Q, a, lib, ps = rng.choice(mine)
        tot += lib
        if tot > 1.2 and _ > 2:
            break
        rng.choice(cs).append(mkop(rng, Q, a, lib, ps, gran, pf, ed))
    return wrap(prop, i, rng, [c for c in cs if c], tot, gran)


def history_deck(prop, tier, seed):
    """every query at least once in a run of its model where everything is asked (and its answer edited, C02, or the call
    interrupted, C03), asked for other parameters, and asked again"""
    rng = random.Random('histdeck-%s-%s-%s' % (prop, tier, seed))
    lim, per = {'quick': (0.06, 3), 'thorough': (0.5, 12)}[tier]
    items = {}
    for nm in sorted(theme(None)):
        if nm == 'all':
            continue
        for Q, ls in theme(nm):
            lv = levels(Q)
            al = [(a, n) for n in ls if lv[n][0] <= lim for a in Q.args.exact(n)]
            if Q.fam in ('EVAL', 'DERIV', 'REWRITE'):
                al = [(a, n) for n in range(1, 13) for a in Q.args.exact(n)]
            if not al:
                al = [(a, n) for n in ls[:1] for a in Q.args.exact(n)]
            # the dearest affordable ones do the most
            al.sort(key=lambda x: x[1])
            some = al[-3:] if len(al) > 3 and rng.random() < 0.5 else al
            got = rng.sample(some, min(per, len(some)))
            for a, n in got:
                lib = lv.get(n, SMALL)[0]
                items.setdefault(nm, []).append((Q, a, lib))
    plans = []
    for nm in sorted(items):
        xs = items[nm]
        rng.shuffle(xs)
        while xs:
            mine = [xs.pop() for _ in range(min(len(xs), rng.randint(4, 8)))]
            gran = 'line' if max(x[2] for x in mine) < 0.09 else 'call'
            if prop == 'C02':
                first = [mkop(rng, Q, a, lib, ps_name('h', seed, 'd', 16 * rng.randrange(2)), gran, 0.05, 0.85) for Q, a, lib in mine]
            else:
                first = [mkop(rng, Q, a, lib, ps_name('h', seed, 'd', 16 * rng.randrange(2)), gran, 1.0, 0.2) for Q, a, lib in mine]
            second = [twin(rng, x[0], o, x[2], gran, kind) for x, o in zip(mine, first)
                      for kind in (rng.choice([(1, 3, None), (2, 4, 5, None), (1, 6, None)]) if x[0].kind == 'num' else rng.choice([(), (None,)]))]
            third = [mkop(rng, Q, a, lib, o['ps'], gran, 0.1, 0.3) for (Q, a, lib), o in zip(mine, first)]
            rng.shuffle(second)
            rng.shuffle(third)
            cs = [[] for _ in range(rng.choice([1, 1, 2, 3]))]
            for o in first + second + third:
                rng.choice(cs).append(o)
            plans.append(wrap(prop, len(plans), rng, [c for c in cs if c], 2.5 * sum(x[2] for x in mine), gran))
    return plans


# ------------------------------------------------------------------ other worlds
def algebra(prop, tier, seed, i):
    rng = random.Random('alg-%s-%d' % (seed, i))
    same = rng.random() < 0.8
    lay = rng.randrange(len(w.LAYOUTS))
    pool = [['%s.%d.%d' % (seed, i, j), lay if same else rng.randrange(len(w.LAYOUTS))] for j in range(rng.randint(2, 4))]
    cs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _k in range(rng.randint(1, 8)):
            op = {'op': rng.choice(w.OPS), 'x': rng.randrange(len(pool)), 'y': rng.randrange(len(pool)), 'n': rng.randint(-4, 6), 'd': rng.randint(1, 5)}
            if rng.random() < 0.25:
                op['fault'] = [int(10 ** rng.uniform(0, 2.3)), rng.choice(KINDS)]
            if rng.random() < 0.3:
                op['edit'] = rng.randint(1, 3)
            ops.append(op)
        cs.append(ops)
    return wrap(prop, i, rng, cs, 0.002, 'line', pool=pool, mean=rng.choice([2, 5, 20]))


def sampler(prop, tier, seed, i):
    rng = random.Random('smp-%s-%s-%d' % (prop, seed, i))
    names = w.TRAJ if prop == 'C14' else w.HIST
    cs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _k in range(rng.randint(1, 4)):
            kind = rng.choice(['const', 'const', 'single', 'pair'])
            nm = names[i % len(names)] if not cs and not ops else rng.choice(names)
            if kind == 'const':
                N, S = rng.choice([1, 2, 3, 5, 17]), rng.choice([1, 2, 3, 4, 7, 10])
                if rng.random() < 0.05:
                    N = rng.choice([64, 64, 300, 1100])
                elif rng.random() < 0.08:
                    N, S = rng.choice([(0, 3), (2, 30), (1, 120), (1, 400), (1, 1300), (3, 10)])
            else:
                N, S = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 3, 4, 5])
            op = {'s': nm, 'ps': '%s.%d.%d' % (seed, i, rng.randrange(10 ** 6)), 'N': N, 'S': S, 'kind': kind,
                  'z': rng.choice([0.5, 1.0, -1.0, 2.0, -2.5, 0.0, 5.0, -7.0]) if kind == 'const' else rng.choice([0.75, 1.25, -1.5, 2.5, -3.0]),
                  'base': rng.choice([0.0, 0.0, 0.5, -0.25])}
            if rng.random() < 0.25:
                op['fault'] = [int(10 ** rng.uniform(0, 2.5)), rng.choice(KINDS)]
            ops.append(op)
        cs.append(ops)
    return wrap(prop, i, rng, cs, 0.004, rng.choice(['line', 'line', 'call']), mean=rng.choice([5, 40, 300]))


def randomness(prop, tier, seed, i):
    rng = random.Random('rnd-%s-%d' % (seed, i))
    allnames = w.TRAJ + w.HIST
    cs = []
    if i % 18 == 4:                                           # one caller who wants very many samples
        ops = []
        nm = rng.choice(allnames)
        for _k in range(rng.randint(1, 3)):
            ops.append({'s': nm if rng.random() < 0.8 else rng.choice(allnames), 'ps': '%s.%d.%d' % (seed, i % 40, rng.randrange(3)),
                        'N': rng.choice([700, 2100, 4200]), 'S': rng.choice([1, 1, 2]), 'kind': 'other', 'z': rng.randint(1, 10 ** 6)})
        return wrap(prop, i, rng, [ops], 1.5, 'call', mean=300)
    if i % 16 == 7:                                           # the program is started many times
        nm = allnames[i // 16 % len(allnames)]
        return wrap(prop, i, rng, [[{'s': nm, 'ps': '%s.%d.%d' % (seed, i % 40, 0), 'N': 2, 'S': rng.choice([1, 3]), 'kind': 'restarts', 'again': 18,
                                     'z': rng.randint(1, 10 ** 5)}]], 0.4, 'call', mean=300)
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops = []
        for _k in range(rng.randint(1, 5)):
            nm = allnames[i % len(allnames)] if not cs and not ops else rng.choice(allnames)
            op = {'s': nm, 'ps': '%s.%d.%d' % (seed, i % 40, rng.randrange(3)), 'N': rng.choice([1, 2, 5, 20]), 'S': rng.choice([1, 3, 5]),
                  'kind': rng.choice(['replay', 'callerstream', 'other', 'other']), 'z': rng.randint(1, 10 ** 6)}
            if rng.random() < 0.25:
                op['fault'] = [int(10 ** rng.uniform(0, 2.5)), rng.choice(KINDS)]
            ops.append(op)
        cs.append(ops)
    return wrap(prop, i, rng, cs, 0.004, 'line', mean=rng.choice([5, 40, 300]))


def export(prop, tier, seed, i):
    rng = random.Random('exp-%s-%s-%d' % (prop, seed, i))
    kfs = sorted(w.NEST)
    cs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _k in range(rng.randint(1, 4)):
            if rng.random() < 0.12:
                op = {'kind': 'sub', 'seed': '%s.%d' % (seed, rng.randrange(10 ** 6)), 'n': rng.choice([1, 3, 8])}
            else:
                kf = kfs[i % len(kfs)] if not cs and not ops else rng.choice(kfs)
                fmt = rng.choice(['txt', 'csv'])
                op = {'kind': 'file', 'kf': kf, 'seed': '%s.%d' % (seed, rng.randrange(50)), 'fmt': fmt,
                      'L': rng.choice([0, 1, 2, 3, rng.randint(4, 12)]) if fmt == 'csv' and rng.random() < (0.9 if prop == 'C17' else 0.6) else -1,
                      'n': rng.choice([0, 1, 2, 5, 5, 12, 60, 400 if tier == 'thorough' or rng.random() < 0.2 else 9]),
                      'file': rng.choice(['out', 'out', 'a.b', 'x-formula', 'data.txt.d', 'v1.2']), 'suffix': rng.randrange(2),
                      'stale': rng.choice([0, 0, 1, 400])}
            if prop == 'C17':
                if rng.random() < 0.45:
                    op['disk'] = [rng.choice(['short', 'eintr']), 0, rng.choice([1, 64, 512, 8192]), 'ENOSPC', rng.choice([1, 7, 100, 4000])]
                if rng.random() < 0.35:
                    op['fault'] = [int(10 ** rng.uniform(0, 3)), rng.choice(KINDS)]
            else:
                kind = rng.choice(['open', 'write', 'write', 'write', 'close', 'write'])
                if rng.random() < 0.8:
                    op['disk'] = [kind, int(10 ** rng.uniform(0, 4.3)) if rng.random() < 0.8 else 0, rng.choice([1, 64, 512, 8192]),
                                  rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EROFS' if kind == 'open' else 'EFBIG', 'EACCES' if kind == 'open' else 'EIO']), 0]
            if rng.random() < 0.25 and op['kind'] == 'file':
                if rng.random() < 0.5:
                    op['crash'] = [1 + int(10 ** rng.uniform(0, 3.3)), -1]
                else:
                    op['crash'] = [0, int(10 ** rng.uniform(0, 4)) if rng.random() < 0.9 else 0]
            ops.append(op)
        cs.append(ops)
    return wrap(prop, i, rng, cs, 0.004, rng.choice(['line', 'line', 'call']), mean=rng.choice([3, 20, 150]))


def refuse(prop, tier, seed, i):
    rng = random.Random('ref-%s-%d' % (seed, i))
    cs = []
    good = [Q for Q in q.TABLE if any(l <= 0.02 for l, c in levels(Q).values())]
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _k in range(rng.randint(2, 7)):
            if rng.random() < 0.2:
                Q = rng.choice(good)
                n = rng.choice([n for n, (l, c) in sorted(levels(Q).items()) if l <= 0.02][:12])
                al = Q.args.exact(n)
                if al:
                    ops.append(mkop(rng, Q, rng.choice(al), 0.01, ps_name('r', seed, 0, number(rng, 4)), 'line', 0.2, 0.2))
                continue
            r = i % len(w.REFUSE) if not cs and not ops else rng.randrange(len(w.REFUSE))
            op = {'r': r, 'name': w.REFUSE[r][0], 'ps': '%s.%d' % (seed, rng.randrange(10 ** 6))}
            if rng.random() < 0.15:
                op['fault'] = [int(10 ** rng.uniform(0, 1.5)), rng.choice(KINDS)]
            ops.append(op)
        if ops:
            cs.append(ops)
    return wrap(prop, i, rng, cs or [[{'r': 0, 'name': w.REFUSE[0][0], 'ps': '0'}]], 0.01, 'line', mean=rng.choice([5, 40, 300]))


def guard(p, i):
    p = dict(p, prop='C21', index=i, guard=1)
    if p['world'] in ('query', 'refuse'):
        p['mode'] = 'guard'
    return p


def tidy(prop, tier, seed, i):
    """what calls leave behind: histories with interrupts, exports, samplers, refused requests"""
    j, r = divmod(i, 7)
    if r < 2:
        p = history('C03', tier, seed, 2 * j + r)
    elif r == 2:
        p = query_more('C19', tier, seed, j)
    elif r in (3, 4):
        p = export('C18' if r == 3 else 'C17', tier, seed, j)
    elif r == 5:
        p = sampler('C14' if j % 2 else 'C15', tier, seed, j // 2)
    else:
        p = refuse('C20', tier, seed, j)
    return guard(p, i)


def tall_deck(prop, tier, seed):
    """every query once at the highest order it is affordable at"""
    rng = random.Random('tall-%s-%s-%s' % (prop, tier, seed))
    cap = {'quick': 0.7, 'thorough': 6.0}[tier]
    items = []
    for Q in CHOICE['C19']():
        lv = levels(Q)
        ns = [n for n in sorted(lv) if lv[n][0] <= cap and Q.args.exact(n)]
        if ns and Q.fam not in ('EVAL', 'DERIV', 'REWRITE'):
            items.append((lv[ns[-1]][0], Q.ix, rng.choice(Q.args.exact(ns[-1]))))
    items.sort(key=lambda x: x[:2])
    plans = []
    while items:
        mine = [items.pop()]
        while items and sum(x[0] for x in mine) < cap:
            mine.append(items.pop(0))
        ops = [mkop(rng, q.TABLE[ix], a, lib, ps_name('h', seed, 't', 16 * rng.randrange(2)), 'call', 0.15, 0) for lib, ix, a in mine]
        plans.append(wrap(prop, len(plans), rng, [ops], sum(x[0] for x in mine), 'call'))
    return plans


GEN = {'C21': tidy, 'C01': algebra, 'C02': history, 'C03': history, 'C14': sampler, 'C15': sampler, 'C16': randomness, 'C17': export, 'C18': export, 'C20': refuse}


def deck(prop, tier, seed):
    if prop in ('C02', 'C03'):
        return history_deck(prop, tier, seed)
    if prop == 'C21':
        return [guard(p, i) for i, p in enumerate(history_deck('C03', tier, seed) + tall_deck(prop, tier, seed))]
    return [] if prop in GEN else query_deck(prop, tier, seed)


def more(prop, tier, seed, i):
    return GEN.get(prop, query_more)(prop, tier, seed, i)


def wall(prop, tier):
    return WALL[tier].get(prop, TIER[tier][2])


def random_runs(prop, tier):
    """how many random runs follow the deck (the wall clock is only a safety net)"""
    return RANDOM[tier].get(prop, 10 ** 9)
