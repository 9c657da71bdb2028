"""Runs plans: one forked process per simulated run, eight workers, seeded search, minimisation,
replay files and evidence."""
import hashlib
import importlib
import json
import math
import os
import pickle
import pkgutil
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = os.path.dirname(os.environ['AJDMOM_SRC'])
sys.path[:0] = [SRC, HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import numpy            # noqa
import mpmath           # noqa
import kernel           # noqa
import seams            # noqa

seams.install()
import worlds as w      # noqa
_before = [dict(w.thread_settings()), dict(w.process_settings())]
import ajdmom           # noqa

NMOD = 0
for _m in sorted(x.name for x in pkgutil.walk_packages(ajdmom.__path__, 'ajdmom.')):
    if _m.endswith('__main__'):
        continue
    importlib.import_module(_m)
    NMOD += 1
if not os.path.realpath(ajdmom.__file__).startswith(kernel.LIB):
    raise SystemExit('ajdmom was imported from %s, not from %s' % (ajdmom.__file__, kernel.LIB))
import queries as q     # noqa

for _k in ('warning filters', 'warning display', 'environment', 'signal handlers', 'module search path', 'threads', 'builtins', 'hooks'):
    _before[1].pop(_k)                # what the library's own dependencies may set up when first imported
w.IMPORTED[0] = w.differs(_before[0], w.thread_settings()) or w.differs(_before[1], w.process_settings())
import plans            # noqa

NCODE = kernel.install()
import gc             # noqa
gc.collect()
gc.freeze()
GRACE = 15                        # seconds other runs may still take once one has failed
NPROC = max(2, min(8, os.cpu_count() or 8))
MEM = 3 << 30


# ------------------------------------------------------------------ talking through pipes
def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>I', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv_all(fd, deadline=None):
    b = b''
    while True:
        if deadline is not None:
            r, _, _ = select.select([fd], [], [], max(0, deadline - time.monotonic()))
            if not r:
                return None
        c = os.read(fd, 1 << 16)
        if not c:
            break
        b += c
    if len(b) < 4 or len(b) != 4 + struct.unpack('>I', b[:4])[0]:
        return b''
    return pickle.loads(b[4:])


def recv(fd):
    def n(k):
        b = b''
        while len(b) < k:
            c = os.read(fd, k - len(b))
            if not c:
                return None
            b += c
        return b
    h = n(4)
    if h is None:
        return None
    return pickle.loads(n(struct.unpack('>I', h)[0]))


class Timeout(Exception):
    pass


def in_child(f, wall, mem=MEM):
    """f() in a forked process; its picklable result, or Timeout"""
    r, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = f()
            except BaseException:       # noqa
                out = {'harness': traceback.format_exc()}
            send(wr, out)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    try:
        res = recv_all(r, time.monotonic() + wall)
    finally:
        os.close(r)
        if True:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    if res is None:
        raise Timeout()
    if res == b'':
        return {'harness': 'the simulated process died'}
    return res


# ------------------------------------------------------------------ one simulated run
def simulate(plan):
    """called in the forked process"""
    sys.stdout = seams.Out()
    sys.setswitchinterval(1000)
    import threading
    threading.stack_size(64 << 20)
    import gc
    gc.disable()
    random.seed(plan['seed'])
    seams.reseed(plan['seed'] & 0x7fffffff)
    world = w.WORLDS[plan['world']](plan)
    sim = kernel.Sim(plan['seed'], plan['gran'], plan['mean'], plan.get('switches'), plan.get('limit', 0))
    world.sim = sim
    viol = harness = None

    def judge(e):
        if isinstance(e, w.Violation):
            return {'kind': e.kind, 'msg': e.msg, 'op': e.op}
        if isinstance(e, kernel.SimDeadlock):
            return {'kind': 'deadlock', 'msg': str(e), 'op': None}
        if isinstance(e, kernel.SimStall):
            return {'kind': 'stall', 'msg': str(e), 'op': None}
        return None
    try:
        try:
            world.setup()
        except w.Violation as e:
            return {'viol': judge(e), 'harness': None, 'events': 0, 'switches': [], 'trace': 0, 'stats': sim.stats, 'sites': [], 'checked': world.checked, 'seen': [], 'retries': 0}
        try:
            if world.guard:
                world.begin_guard()
            bad = sim.run([world.body] * len(plan['callers']))
            errs = [c.error for c in sim.callers if c.error is not None]
            if errs:
                errs.sort(key=lambda e: isinstance(e, kernel.SimDeadlock))
                e = errs[0]
                viol = judge(e)
                if viol is None:
                    harness = ''.join(traceback.format_exception(e))
            else:
                try:
                    world.finish()
                except w.Violation as e:
                    viol = judge(e)
        finally:
            if hasattr(world, 'teardown'):
                world.teardown()
    except Exception:
        harness = traceback.format_exc()
    return {'viol': viol, 'harness': harness, 'events': sim.events, 'switches': sim.switches, 'trace': sim.trace, 'stats': sim.stats,
            'sites': sorted(map(str, sim.sites)), 'checked': world.checked, 'seen': sorted(world.seen), 'retries': world.retries}


_base = {}


def bases(plan):
    out = {}
    for ops in plan['callers']:
        for op in ops:
            k = w.base_key(op)
            if k not in _base:
                if len(_base) > 5000:
                    _base.clear()
                r = in_child(lambda: {'v': w.baseline(op)}, 120)
                if 'v' not in r:
                    raise RuntimeError(r.get('harness'))
                _base[k] = r['v']
            out[k] = _base[k]
    return out


def run(plan, wall=None, quick=None):
    """one run of a plan, start to finish"""
    t0 = time.monotonic()
    try:
        if plan['world'] in ('query', 'refuse'):
            world = w.WORLDS[plan['world']](plan)
            if plan['mode'] == 'diff':
                plan = dict(plan, _base=bases(plan))
            elif plan['world'] == 'query':
                world.prefetch()
    except Timeout:
        return stalled(plan, t0)
    except Exception:
        return {'viol': None, 'harness': traceback.format_exc(), 'wall': time.monotonic() - t0}
    t1 = time.monotonic()
    try:
        r = in_child(lambda: simulate(plan), quick or wall or max(60, 40 * plan.get('est', 1)))
    except Timeout:
        if quick:
            return {'viol': None, 'harness': None, 'wall': quick}
        # too long on the clock proves nothing: run it again with a bound on its steps
        lim = int(max(2e7, 5e7 * plan.get('est', 1)))
        try:
            r = in_child(lambda: simulate(dict(plan, limit=lim)), 400)
        except Timeout:
            return {'viol': None, 'harness': 'no answer after 400 s', 'wall': time.monotonic() - t0}
    r['wall'] = time.monotonic() - t0
    r['prep'] = t1 - t0
    return r


def stalled(plan, t0):
    return {'viol': {'kind': 'stall', 'msg': 'a library call that takes a fraction of a second did not finish in 120 s', 'op': None},
            'harness': None, 'wall': time.monotonic() - t0, 'events': 0, 'switches': [], 'trace': 0, 'stats': {}, 'sites': [], 'checked': 0,
            'seen': [], 'retries': 0}


# ------------------------------------------------------------------ workers
def worker(rfd, wfd):
    try:
        while True:
            plan = recv(rfd)
            if plan is None:
                break
            r = run(plan)
            r['key'] = plan['key']
            send(wfd, r)
    finally:
        os._exit(0)


class Pool:
    def __init__(self, n):
        self.w = []
        for i in range(n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                for x in self.w:
                    os.close(x['out'])
                    os.close(x['in'])
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                worker(r1, w2)
            os.close(r1)
            os.close(w2)
            self.w.append({'pid': pid, 'out': w1, 'in': r2, 'busy': None})

    def idle(self):
        return [x for x in self.w if x['busy'] is None]

    def give(self, x, plan):
        x['busy'] = plan
        send(x['out'], plan)

    def take(self, timeout):
        fds = {x['in']: x for x in self.w if x['busy'] is not None}
        r, _, _ = select.select(list(fds), [], [], timeout)
        out = []
        for fd in r:
            x = fds[fd]
            res = recv(fd)
            if res is None:
                res = {'viol': None, 'harness': 'a worker died', 'wall': 0}
                x['busy'], plan = 'dead', x['busy']
                out.append((plan, res))
                continue
            plan, x['busy'] = x['busy'], None
            out.append((plan, res))
        return out

    def close(self):
        for x in self.w:
            os.close(x['out'])
        for x in self.w:
            try:
                os.kill(x['pid'], signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(x['pid'], 0)
            os.close(x['in'])


# ------------------------------------------------------------------ minimisation
def same(v, v0):
    return v is not None and v['kind'] == v0['kind']


def minimise(plan, res, secs=60, runs=60):
    """smaller plan (and explicit schedule) with the same kind of violation"""
    t0 = time.monotonic()
    used = [0]
    v0 = res['viol']

    def attempt(p):
        if used[0] >= runs or time.monotonic() - t0 > secs:
            return None
        used[0] += 1
        r = run(p, quick=None if v0['kind'] == 'stall' else max(8, 3 * res['wall']))
        return r if same(r.get('viol'), v0) else None
    best, bres = plan, res
    # the failing operation on its own, then only its caller, then everything sequential
    op = v0.get('op')
    trials = []
    if op is not None:
        o = plan['callers'][op[0]][op[1]]
        alone = {k: x for k, x in o.items() if k not in ('fault', 'edit', 'reuse', 'share')}
        trials.append(dict(plan, callers=[[alone]], switches=[]))
        trials.append(dict(plan, callers=[[o]], switches=[]))
        trials.append(dict(plan, callers=[plan['callers'][op[0]][:op[1] + 1]], switches=[]))
    trials.append(dict(plan, callers=[c for c in plan['callers']], switches=[]))
    for t in trials:
        r = attempt(t)
        if r:
            best, bres = t, r
            break
    else:
        t = dict(plan, switches=res['switches'])
        r = attempt(t)
        if r:
            best, bres = t, r
    changed = True
    while changed:
        changed = False
        for i in range(len(best['callers']) - 1, -1, -1):
            if len(best['callers']) > 1 and 'switches' in best and not best['switches']:
                t = dict(best, callers=best['callers'][:i] + best['callers'][i + 1:])
                r = attempt(t)
                if r:
                    best, bres, changed = t, r, True
                    break
        for i in range(len(best['callers'])):
            for j in range(len(best['callers'][i]) - 1, -1, -1):
                if len(best['callers'][i]) <= 1:
                    break
                t = dict(best, callers=[c if k != i else c[:j] + c[j + 1:] for k, c in enumerate(best['callers'])])
                r = attempt(t)
                if r:
                    best, bres, changed = t, r, True
                    break
        for i, c in enumerate(best['callers']):
            for j, o in enumerate(c):
                for k in ('fault', 'edit', 'reuse', 'share', 'stale', 'disk', 'crash'):
                    if o.get(k):
                        o2 = {a: b for a, b in o.items() if a != k}
                        t = dict(best, callers=[x if m != i else [y if n != j else o2 for n, y in enumerate(x)] for m, x in enumerate(best['callers'])])
                        r = attempt(t)
                        if r:
                            best, bres, changed = t, r, True
                            o = o2
        sw = best.get('switches')
        if sw and len(sw) > 1:
            n = 2
            while len(sw) > 1 and used[0] < runs:
                size = max(1, len(sw) // n)
                for s in range(0, len(sw), size):
                    t = dict(best, switches=sw[:s] + sw[s + size:])
                    r = attempt(t)
                    if r:
                        best, bres, changed = t, r, True
                        sw = t['switches']
                        n = max(2, n - 1)
                        break
                else:
                    if size == 1:
                        break
                    n = min(len(sw), n * 2)
                if time.monotonic() - t0 > secs:
                    break
        if used[0] >= runs or time.monotonic() - t0 > secs:
            break
    return best, bres, used[0]


# ------------------------------------------------------------------ known findings
def known():
    out = []
    try:
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            for ln in f:
                if ln.startswith('known: '):
                    out.append(json.loads(ln[7:]))
    except FileNotFoundError:
        pass
    return out


def known_match(prop, plan, v, kn):
    op = plan['callers'][v['op'][0]][v['op'][1]] if v.get('op') else {}
    for k in kn:
        if k['property'] == prop and k['kind'] == v['kind'] and all(op.get(a) == b for a, b in k['op'].items()) and k.get('text', '') in v['msg']:
            return k
    return None


# ------------------------------------------------------------------ a check
def distinct_measure(r):
    s = r.get('stats') or {}
    return r.get('checked', 0) > 0 and (s.get('preemptions', 0) > 0 or any(k.startswith(('fault:', 'disk:')) for k in s))


def check(prop, tier, seed, evidence=True, wall=None, deck=True):
    t0 = time.monotonic()
    given = wall
    wall = wall or plans.wall(prop, tier)
    dk = plans.deck(prop, tier, seed) if deck else []
    for p in dk:
        p['key'] = ['deck', p['index']]
    dk.sort(key=lambda p: -p['est'])
    pool = Pool(NPROC)
    todo = list(reversed(dk))
    T = {'runs': 0, 'ops': 0, 'events': 0, 'retries': 0, 'interrupted': 0, 'wallsum': 0.0}
    stats, sites, seen, traces, nontriv = {}, set(), set(), set(), set()
    samples, viol, broken, again, rep = [], [], [], [], []
    nmore = 0
    first = {}
    verify = []                       # runs executed twice
    diverged = 0
    want, cap = plans.random_runs(prop, tier), wall * 4 if tier == 'quick' else wall
    if given:
        want = 10 ** 9
        cap = wall
    found_at = None
    while True:
        now = time.monotonic() - t0
        for x in pool.idle():
            if viol or broken:
                break
            if todo:
                pool.give(x, todo.pop())
            elif nmore < want and now < cap:
                if verify and nmore % 37 == 0:
                    p = verify.pop()
                    pool.give(x, dict(p, key=['again'] + p['key']))
                    nmore += 1
                    continue
                p = plans.more(prop, tier, seed, nmore)
                p['key'] = ['more', nmore]
                nmore += 1
                pool.give(x, p)
        if not any(x['busy'] not in (None, 'dead') for x in pool.w):
            break
        for plan, r in pool.take(2):
            if r.get('harness'):
                broken.append((plan, r))
                continue
            T['runs'] += 1
            T['ops'] += r['checked']
            T['events'] += r['events']
            T['retries'] += r['retries']
            T['wallsum'] += r['wall']
            for k, n in r['stats'].items():
                stats[k] = stats.get(k, 0) + n
            sites.update(r['sites'])
            seen.update(r['seen'])
            d = (r['trace'], tuple(r['seen']))
            key = tuple(map(str, plan['key']))
            if key[0] == 'again':
                if first.get(key[1:]) != (r['trace'], r['events'], r['checked']):
                    diverged += 1
                rep.append(key)
            else:
                first[key] = (r['trace'], r['events'], r['checked'])
                if T['runs'] % 11 == 3 and r['wall'] < 2 and len(verify) < 40:
                    verify.append(plan)
            traces.add(d)
            if distinct_measure(r):
                nontriv.add(d)
            if len(samples) < 6 and r['checked'] and (T['runs'] % 7 == 1):
                samples.append({'plan': {k: v for k, v in plan.items() if k not in ('_base', 'key')}, 'switches_taken': r['switches'][:20],
                                'library_steps': r['events'], 'answers_checked': r['checked'], 'counters': r['stats']})
            if r['viol'] is not None:
                viol.append((plan, r))
        if viol or broken:
            found_at = found_at or time.monotonic()
            if time.monotonic() - found_at > GRACE:
                break
    pool.close()
    code = 0
    kn = known()
    reported = 0
    lines = []
    for k in kn:
        if k['property'] == prop:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    viol.sort(key=lambda x: (x[0]['key'][0] != 'deck', x[0]['key'][1], x[0]['est']))
    done = set()
    for plan, r in viol:
        k = known_match(prop, plan, r['viol'], kn)
        if k is not None:
            continue
        tag = r['viol']['kind']
        if tag in done or reported >= 2:
            continue
        done.add(tag)
        best, bres, used = minimise(plan, r)
        path = write_replay(prop, tier, seed, plan, r, best, bres, used)
        print('violation [%s] %s' % (bres['viol']['kind'], bres['viol']['msg'][:1500]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        reported += 1
        code = 1
    if broken and not reported:
        p, r = broken[0]
        print('the harness could not decide run %s:\n%s' % (p['key'], r['harness']), file=sys.stderr)
        code = 2
    wallt = time.monotonic() - t0
    if evidence:
        write_evidence(prop, tier, seed, T, stats, sites, seen, traces, nontriv, samples, dk, nmore, wallt, rep, diverged, reported)
    for ln in lines:
        print(ln)
    print('%s %s: %d simulated runs, %d answers checked, %d distinct nontrivial, %.1f s%s' % (
        prop, tier, T['runs'], T['ops'], len(nontriv), wallt, '' if not diverged else ', %d repeats diverged' % diverged))
    return code


def clean(plan):
    return {k: v for k, v in plan.items() if k not in ('_base', 'key')}


def write_replay(prop, tier, seed, plan, r, best, bres, used):
    best = clean(best)
    if bres.get('switches') is not None and 'switches' not in best:
        best['switches'] = bres['switches']          # the schedule, spelled out
        r2 = run(best)
        if not same(r2.get('viol'), bres['viol']):
            del best['switches']
    d = {'property': prop, 'violation': bres['viol'], 'plan': best,
         'found_by': {'tier': tier, 'VERIF_SEED': seed, 'run': plan['key'], 'run_seed': plan['seed'], 'violation': r['viol'], 'plan': clean(plan)},
         'minimisation_runs': used, 'steps': bres['events'], 'trace_digest': bres['trace'],
         'how': '/verif/check --replay <this file> runs exactly this plan: callers, operations, injected faults and schedule'}
    h = hashlib.sha1(json.dumps(best, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, 'evidence', 'replay-%s-%s.json' % (prop, h))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    # what the file says must be what running it again gives
    again = run(best)
    d['reproduced'] = same(again.get('viol'), bres['viol'])
    if not d['reproduced']:
        d['plan'] = clean(plan)
    with seams._real_open(path, 'w') as f:
        json.dump(d, f, indent=1)
    return path


def replay(path):
    with seams._real_open(path) as f:
        d = json.load(f)
    r = run(d['plan'])
    if r.get('harness'):
        print(r['harness'], file=sys.stderr)
        return 2
    if r['viol'] is None:
        print('the replayed run satisfies %s (%d answers checked)' % (d['property'], r['checked']))
        return 0
    exact = (r['trace'], r['events'], r['viol']['kind']) == (d['trace_digest'], d['steps'], d['violation']['kind'])
    print('violation [%s] %s' % (r['viol']['kind'], r['viol']['msg'][:3000]))
    print('same execution as recorded: %s (%d steps)' % ('yes' if exact else 'no', r['events']))
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1


REAL = 'every module of ajdmom (%d modules, %d functions instrumented), numpy, scipy, real Python threads handed over by the simulator'
STUB = {'query': 'no component replaced (locks, if the library took any, would be cooperative)',
        'sampler': 'numpy.random: elementary normals and counts come from the simulation script',
        'random': 'numpy.random.default_rng() without a seed: real bit generator seeded by the simulation',
        'export': 'file opening for writing and the raw disk below Python\'s buffering; standard output'}


def write_evidence(prop, tier, seed, T, stats, sites, seen, traces, nontriv, samples, dk, nmore, wall, rep, diverged, nviol):
    wd = plans.WORLD.get(prop, 'query')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL[prop],
        'coverage': {
            'evaluations': T['runs'], 'distinct_nontrivial': len(nontriv),
            'rule': 'a simulated run counts once per distinct execution digest (sequence of pre-emption points, faults and operation boundaries, '
                    'plus the set of answers checked) and only if it checked at least one answer and had at least one mid-call pre-emption or injected fault',
            'samples': samples,
            'answers_checked': T['ops'], 'distinct_queries_checked': len(seen), 'runs_from_covering_deck': len(dk), 'runs_random': nmore,
            'runs_per_hour': int(T['runs'] / max(wall, 0.1) * 3600), 'seeds_per_hour': int(T['runs'] / max(wall, 0.1) * 3600),
            'simulated_time': 'no clock: the library has no timers; simulated time is %d library steps (lines or function entries) at which the scheduler could act' % T['events'],
            'faults_injected': {k: n for k, n in sorted(stats.items()) if k.startswith(('fault:', 'disk:'))},
            'calls_interrupted_and_repeated': T['retries'],
            'preemptions': stats.get('preemptions', 0), 'lock_waits': stats.get('lock_waits', 0), 'caller_edits_of_answers': stats.get('caller_edits', 0),
            'distinct_executions': len(traces), 'distinct_fault_or_preemption_sites': len(sites),
            'repeat_runs_for_determinism': len(rep), 'repeat_runs_diverged': diverged,
            'real_components': REAL % (NMOD, NCODE), 'stubbed_components': STUB.get(wd, STUB['query']),
        },
        'assumptions': ASSUME.get(wd, []) + ['CPython 3.12 executes one caller at a time between two monitored events; pre-emption inside a single line is not explored'],
        'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with seams._real_open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


LEVEL = {p: 'exploration' for p in plans.PROPS}
ASSUME = {
    'query': ['the independent reference engine (sim/refmodel.py, generator of the jump diffusion applied to monomials, 60-digit arithmetic) is right',
              'a symbolic answer that evaluates to the reference at generic exact parameters to 30 digits is the documented formula'],
    'sampler': ['a discretisation is identified by its answers to constant, single-impulse and two-impulse noise'],
}


def main(argv):
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    prop, tier = argv[0], argv[1] if len(argv) > 1 else 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    if prop not in plans.PROPS or tier not in ('quick', 'thorough'):
        print('usage: check C01..C20 quick|thorough | check --replay FILE', file=sys.stderr)
        return 2
    wall = float(os.environ['AJDSIM_WALL']) if 'AJDSIM_WALL' in os.environ else None
    return check(prop, tier, seed if not seed.lstrip('-').isdigit() else int(seed), wall=wall)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:       # noqa
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
