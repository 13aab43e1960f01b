"""C02: OpenMP solvers under ThreadSanitizer with seeded delays, and bit for bit
comparison of the fields and of the printed results over thread counts."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G

NAMES = [n for n in S.ALL if not n.endswith('.py')]
THREADS = [2, 3, 4, 7, 8, 16]


def cases(ctx):
    rng = ctx.rng
    res = []
    for s in NAMES:
        for k in range(ctx.pick(14, 200)):   # race detection on the solver
            nd = 3 if not S.dims_ok(s, 2) else rng.choice([1, 2, 3, 3, 3, 4])
            n = G.extents(rng, nd, 3000)
            v, L = G.velocity(rng, nd), G.lengths(rng, nd)
            ops = [['adv', rng.randint(1, 6), G.timestep(rng, n, v, L, 'stable')], ['dump'], ['sum'],
                   ['adv', rng.randint(1, 4), G.timestep(rng, n, v, L, 'any')], ['dump']]
            res.append(dict(kind='tsan', solver=s, n=n, v=v, L=L, ops=ops, thr=rng.choice(THREADS), seed=rng.randrange(1 << 30),
                            delay=rng.choice([0, 50, 300])))
        for k in range(ctx.pick(10, 120)):   # bit for bit
            nd = 3 if not S.dims_ok(s, 2) else rng.choice([1, 2, 3, 3, 3, 4])
            n = G.extents(rng, nd, 60000 if k % 2 else 500)
            if k == 0:
                n = [40] * 3 if nd == 3 else n
            v, L = G.velocity(rng, nd), G.lengths(rng, nd)
            ops = [['adv', rng.randint(1, 30), G.timestep(rng, n, v, L, 'stable')], ['dump'], ['sum'], ['std']]
            res.append(dict(kind='bits', solver=s, n=n, v=v, L=L, ops=ops, threads=[1] + rng.sample([2, 3, 4, 5, 6, 7, 8, 12, 16], 4),
                            schedule=rng.choice(['static', 'dynamic,1', 'guided', 'static,3']), dyn=rng.choice([0, 0, 1])))
        for n in rng.sample(G.LARGE3, 2):
            v, L = [rng.choice([-1.0, 1.0]) for _ in n], [1.0, 1.0, 1.0]
            ops = [['adv', 5, G.timestep(rng, n, v, L, 'stable')], ['dump'], ['sum'], ['std']]
            res.append(dict(kind='bits', solver=s, n=n, v=v, L=L, ops=ops, threads=[1] + rng.sample([2, 3, 4, 5, 6, 7, 8, 12, 16], 4),
                            schedule=rng.choice(['static', 'dynamic,64', 'guided']), dyn=0))
        for k in range(ctx.pick(3, 20)):     # the program with its banner
            res.append(dict(kind='main', solver=s, cells=rng.choice([1, 2, 3, 5, 8, 10]), steps=rng.randint(1, 5),
                            threads=[1] + rng.sample([2, 3, 4, 5, 8, 16], 3), seed=rng.randrange(1 << 30), delay=rng.choice([0, 100, 400])))
    return res


def cli(s, c):
    return [str(c['cells']), str(c['steps'])] if s.endswith('.F90') else ['-numCells', str(c['cells']), '-numSteps', str(c['steps'])] + (['-std'] if s != 'upwindAcc.cxx' else [])


def results(out):
    """What a program prints, without what tells about the threads themselves."""
    return [l.split() for l in out.splitlines() if l.strip() and not re.search('thread|openmp|open mp', l, re.I)]


def same(a, b):
    """Equal words, numbers equal in the digits that are printed."""
    def eq(u, w):
        if u == w:
            return True
        try:
            x, y = float(u), float(w)
        except ValueError:
            return False
        return abs(x - y) <= 1.1e-5 * max(abs(x), abs(y)) and '.' in u + w
    return len(a) == len(b) and all(len(p) == len(q) and all(map(eq, p, q)) for p, q in zip(a, b))


def race_text(r):
    t = [l.strip() for l in r.err.splitlines()]
    for i, l in enumerate(t):
        if l.startswith('SUMMARY: ThreadSanitizer'):
            return l[:220]
    return r.brief()


def run(ctx, cases):
    kinds = {(c['kind'], c['solver']) for c in cases}
    todo = [(k, s) for k in ('tsan', 'bits', 'main') for s in NAMES if (k, s) in kinds]

    def build(ks):
        k, s = ks
        if k == 'main':
            return S.build_program(ctx, s, tsan=True, opt='-O1')
        return S.build_one(ctx, s, tsan=(k == 'tsan'), opt='-O1' if k == 'tsan' else '-O2')
    exes = dict(zip(todo, pmap(build, todo)))
    ctx.rule = ('a case is one problem run under ThreadSanitizer with seeded delays at OpenMP scheduling points (tsan, main), or at several thread '
                'counts with the fields compared bit for bit (bits); non-trivial: more than one thread entered a parallel region or several thread counts were compared')
    ctx.assumptions = ['libgomp gives the ordering the OpenMP standard promises; the wrappers in harness/gomp_wrap.c tell ThreadSanitizer exactly that']

    def tsan_env(c, st, thr=None):
        e = dict(TSAN_OPTIONS=S.TSAN_OPTIONS, VF_SEED=c['seed'], VF_DELAY=c['delay'], VF_GOMP_STATS=st)
        if thr:
            e['OMP_NUM_THREADS'] = thr
        return e

    def one(ic):
        i, c = ic
        exe = exes[(c['kind'], c['solver'])]
        obs = {}
        if c['kind'] == 'tsan':
            st = os.path.join(ctx.dir('st'), 'st.json')
            recs, fl, _ = S.run_cases(ctx, exe, [(0, c)], env=tsan_env(c, st), pre=['setarch', '-R'])
            if os.path.exists(st):
                obs = json.load(open(st))
            if fl:
                return f'{c["thr"]} threads: {race_text(fl[1])}', obs
            return None, obs
        if c['kind'] == 'bits':
            ref = None
            for t in c['threads']:
                recs, fl, _ = S.run_cases(ctx, exe, [(0, dict(c, thr=t))], env=dict(OMP_SCHEDULE=c['schedule'], OMP_DYNAMIC='true' if c['dyn'] else 'false'))
                if fl:
                    return f'{t} threads: {fl[1].brief()}', obs
                if ref is None:
                    ref = recs[0]
                for k, ((tag, x), (_, y)) in enumerate(zip(recs[0], ref)):
                    # fields bit for bit; sums and spreads may be added up in another order
                    if (x.tobytes() != y.tobytes()) if tag == 'dump' else not np.allclose(x, y, rtol=1e-11, atol=1e-13, equal_nan=True):
                        return f'{t} threads: record {k} ({tag}) differs from the one of 1 thread', obs
            return None, {'compared': len(c['threads'])}
        ref = None
        for t in c['threads']:
            d = ctx.dir('m')
            r = run_cmd(['setarch', '-R'] + exe + cli(c['solver'], c), cwd=d, env=base_env(**tsan_env(c, d + '/st.json', t)))
            if os.path.exists(d + '/st.json'):
                for k, v in json.load(open(d + '/st.json')).items():
                    obs[k] = obs.get(k, 0) + v
            if r.rc != 0 or r.timeout:
                return f'program with {t} threads: {race_text(r)}', obs
            if ref is None:
                ref = results(r.out)
            elif not same(results(r.out), ref):
                return f'program prints other results with {t} threads: {[x for x in results(r.out) if x not in ref][:3]} instead of {[x for x in ref if x not in results(r.out)][:3]}', obs
        return None, obs

    for (i, c), (bad, obs) in zip(enumerate(cases), pmap(one, enumerate(cases), workers=4)):
        ctx.case(json.dumps(c, sort_keys=True), nontrivial=c['kind'] != 'tsan' or obs.get('entries', 0) > obs.get('regions', 0),
                 sample={k: c[k] for k in ('kind', 'solver') if k in c})
        for k, v in obs.items():
            ctx.count(f'{c["kind"]} {k}', v)
        ctx.count(f'{c["kind"]} runs')
        if bad:
            ctx.fail(f'{c["solver"]}: {bad}', c)

