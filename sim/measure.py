"""measure what each query costs (library, reference) per total order -> costs.json (development aid)"""
import json, os, random, resource, signal, sys, time
from multiprocessing import Process, Queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = ['/repo/src', HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import queries as q
LIM = float(sys.argv[1]) if len(sys.argv) > 1 else 40


class TO(Exception):
    pass


def al(*a):
    raise TO()


def work(ix, out):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    signal.signal(signal.SIGALRM, al)
    Q = q.TABLE[ix]
    res = {}
    for n in range(Q.args.lo, 13):
        al_ = Q.args.exact(n)
        random.Random(5).shuffle(al_)
        lm = cm = 0
        bad = None
        for a in al_[:6]:
            p = Q.par(random.Random(repr((n, a))))
            try:
                signal.alarm(int(LIM * 3))
                t0 = time.process_time(); r = Q.call(a, q.fpar(p)); t1 = time.process_time()
                q._cache.clear()
                try:
                    Q.check(r, a, p)
                except q.Mismatch as e:
                    bad = 'MISMATCH %s %s' % (a, e)
                t2 = time.process_time()
                signal.alarm(0)
            except TO:
                lm = 999; break
            except Exception as e:
                signal.alarm(0)
                bad = 'EXC %s %r' % (a, e); break
            lm, cm = max(lm, t1 - t0), max(cm, t2 - t1)
        if bad:
            print(Q.name, bad, flush=True)
        if lm == 999:
            break
        res[n] = [round(lm, 4), round(cm, 4)]
        if lm + cm > LIM:
            break
    out.put((ix, res))


if __name__ == '__main__':
    out = Queue(); procs = []; costs = {}
    todo = [Q.ix for Q in q.TABLE if Q.fam not in ('EVAL', 'DERIV', 'REWRITE')]
    done = 0; n = len(todo)
    while done < n:
        while todo and len([p for p in procs if p.is_alive()]) < 8:
            p = Process(target=work, args=(todo.pop(0), out)); p.start(); procs.append(p)
        try:
            ix, res = out.get(timeout=1)
        except Exception:
            continue
        done += 1
        costs['%d %s' % (ix, q.TABLE[ix].name)] = res
        print(done, n, q.TABLE[ix].name, res, flush=True)
        json.dump(dict(sorted(costs.items(), key=lambda x: int(x[0].split()[0]))), open(os.path.join(HERE, 'costs.json'), 'w'), indent=0)
