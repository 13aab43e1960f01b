"""C01: every single-process solver against the reference upwind update."""
from ..core import *
from .. import solvers as S, ref as R, gen as G


def cases(ctx):
    rng = ctx.rng
    res = []
    fixed = [
        dict(n=[4, 4, 4], v=[1.0, 1.0, 1.0], L=[1.0, 1.0, 1.0], ops=[['dump'], ['adv', 10, 0.025], ['dump']]),
        dict(n=[3, 5, 7], v=[-1.0, 0.5, 1.0], L=[1.0, 2.0, 3.0], ops=[['dump'], ['adv', 1, 0.05], ['dump'], ['adv', 200, 0.05], ['dump']]),
        dict(n=[1, 1, 1], v=[1.0, -1.0, 0.5], L=[1.0, 1.0, 1.0], ops=[['adv', 3, 0.1], ['dump']]),
        dict(n=[2, 1, 2], v=[-1.0, -1.0, -0.5], L=[1.0, 0.5, 1.0], ops=[['adv', 130, 0.1], ['dump']]),
        dict(n=[48, 40, 44], v=[-1.0, 1.0, -1.0], L=[1.0, 1.0, 1.0], ops=[['adv', 130, 0.004], ['dump']]),
        dict(n=[64, 64, 64], v=[1.0, -1.0, 1.0], L=[1.0, 1.0, 1.0], ops=[['adv', 40, 0.002], ['dump']]),
        dict(n=[3, 260, 257], v=[0.5, -1.0, -0.8], L=[1.0, 1.0, 1.0], ops=[['adv', 12, 1e-3], ['dump']]),
        dict(n=[70001, 1, 1], v=[-1.0, 0.5, 1.0], L=[1.0, 1.0, 1.0], ops=[['adv', 6, 1e-5], ['dump']]),
        dict(n=[1, 66000, 1], v=[1.0, -1.0, 0.0], L=[1.0, 1.0, 1.0], ops=[['adv', 6, 1e-5], ['dump']]),
        dict(n=[2, 1, 40000], v=[1.0, 1.0, -1.0], L=[1.0, 1.0, 1.0], ops=[['adv', 6, 1e-5], ['dump']]),
        dict(n=[3, 2, 1], v=[0.6, -0.9, 0.3], L=[1.0, 1.0, 1.0], ops=[['adv', 66001, 2e-5], ['dump']]),
        dict(n=[70001], v=[-1.0], L=[1.0], ops=[['adv', 6, 1e-5], ['dump']]),
        dict(n=[300, 257], v=[1.0, -1.0], L=[3.0, 1.0], ops=[['adv', 40, 1e-3], ['dump']]),
        dict(n=[4, 5, 3], v=[-3e13, 2e13, 1e13], L=[1.0, 1.0, 1.0], ops=[['adv', 5, 1e-15], ['dump']]),
        dict(n=[4, 5, 3], v=[-3e-13, 2e-13, 1e-13], L=[1.0, 1.0, 1.0], ops=[['adv', 5, 3e11], ['dump']]),
        dict(n=[4, 5, 3], v=[0.3, -0.2, 0.1], L=[2e8, 1e8, 3e8], ops=[['adv', 5, 9e7], ['dump']]),
        dict(n=[4, 5, 3], v=[0.3, -0.2, -0.1], L=[2e-8, 1e-8, 3e-8], ops=[['adv', 5, 9e-9], ['dump']]),
        dict(n=[4, 3], v=[0.7, -0.3], L=[1.0, 1.0], ops=[['adv', 1030, 3e-4], ['dump'], ['adv', 4200, 1e-4], ['dump']]),
        dict(n=[3, 2, 4], v=[0.7, -0.3, -1.0], L=[1.0, 1.0, 1.0], ops=[['adv', 1030, 3e-4], ['dump'], ['adv', 2111, 3e-4], ['dump']]),
        dict(n=[3, 4, 2, 5], v=[1.0, -1.0, 0.5, -0.25], L=[1.0] * 4, ops=[['adv', 17, 0.03], ['dump']]),
        dict(n=[2, 41, 40, 41], v=[1.0, -1.0, 0.3, 0.7], L=[1.0, 1.0, 1.0, 2.0], ops=[['adv', 2, 0.001], ['dump']]),
        dict(n=[2, 3, 2, 1, 3], v=[1.0, -1.0, 0.5, -0.25, 1.0], L=[1.0] * 5, ops=[['adv', 17, 0.03], ['dump']]),
    ]
    if ctx.thorough:
        fixed.append(dict(n=[200, 128, 130], v=[1.0, -1.0, 0.3], L=[1.0, 1.0, 1.0], ops=[['adv', 4, 0.001], ['dump']]))
        fixed.append(dict(n=[1 << 20], v=[1.0], L=[1.0], ops=[['adv', 4, 5e-7], ['dump']]))
    probs = list(fixed)
    for k in range(ctx.pick(350, 4000)):
        nd = rng.choice([1, 2, 2, 3, 3, 3, 3, 3, 3, 4, 5])
        n = G.extents(rng, nd, 40000)
        v, L = G.velocity(rng, nd), G.lengths(rng, nd)
        ops = [['dump']] if rng.random() < 0.2 else []
        for _ in range(rng.randint(1, 3)):
            small = np.prod(n) <= 600
            st = rng.choice([0, 1, 2, 3, rng.randint(1, 40), rng.choice([63, 64, 65, 100, 128, 129, 200]) if small else 7])
            ops.append(['adv', st, G.timestep(rng, n, v, L, 'any')])
            if rng.random() < 0.5:
                ops.append(['dump'])
        ops.append(['dump'])
        probs.append(dict(n=n, v=v, L=L, ops=ops))
    # problems one after another in one process that are alike in all but one respect
    for k in range(ctx.pick(16, 60)):
        probs += alike(rng, ctx.pick(4, 12))
    for c in probs:
        for s in S.ALL:
            if S.dims_ok(s, len(c['n'])):
                res.append(dict(solver=s, thr=rng.choice([1, 1, 2, 3, 4, 7]), **c))
    return res


def alike(rng, m):
    nd = rng.choice([1, 2, 3, 3, 3])
    n, v, L = G.extents(rng, nd, 2000), G.velocity(rng, nd), G.lengths(rng, nd)
    dt, st = G.timestep(rng, n, v, L, 'stable') / 3, rng.randint(1, 6)
    res = []
    for what in ['L', 'n', 'v', 'dt', 'st']:
        n2, v2, L2, dt2, st2 = list(n), list(v), list(L), dt, st
        j = rng.randrange(nd)
        if what == 'L':
            L2[j] *= rng.choice([0.5, 2.0, 3.0])
        elif what == 'n':
            n2[j] = rng.choice([n2[j] + 1, max(1, n2[j] - 1), 2 * n2[j]]) if rng.random() < 0.6 or nd == 1 else n2[j]
            if n2 == n:
                n2 = n2[::-1]
        elif what == 'v':
            v2[j] = rng.choice([-v2[j], v2[j] / 2, 0.0])
        elif what == 'dt':
            dt2 = dt / 2
        else:
            st2 = st + 1
        ops = [['adv', st2, dt2], ['dump']]
        # m of each: some run in other processes
        res += [dict(n=n, v=v, L=L, ops=[['adv', st, dt], ['dump']])] * m + [dict(n=n2, v=v2, L=L2, ops=ops)] * m
    return res


def judge(ctx, c, recs, model):
    it = iter([r for r in recs if r[0] == 'dump'])
    for m in model:
        r = next(it, None)
        if r is None:
            return 'no field was recorded'
        bad = m.mismatch(r[1])
        if bad:
            return bad
    return None


class Snap(R.Adv):
    def __init__(self, a):
        self.n, self.f, self.e, self.steps = a.n, a.f.copy(), a.e.copy(), a.steps


def model_of(c):
    a = R.Adv(c['n'], c['v'], c['L'])
    res = []
    with np.errstate(all='ignore'):
        for op in c['ops']:
            if op[0] == 'adv':
                a.advect(op[1], op[2])
            elif op[0] == 'dump':
                res.append(Snap(a))
    return res


def run(ctx, cases):
    names = sorted({c['solver'] for c in cases})
    exes = S.build_many(ctx, names)
    ctx.rule = ('a case is one problem (extents, velocities, lengths, time steps, step counts, threads) on one solver; every cell of every '
                'recorded field is compared with an independent model within an accumulated rounding bound; non-trivial: the field is not the initial one')
    ctx.assumptions = ['finite double arithmetic, total cell count below 2^31', 'compiled with gcc/gfortran -O2 -fopenmp as the repository does']
    jobs = []
    for s in names:
        mine = [(i, c) for i, c in enumerate(cases) if c['solver'] == s]
        for ch in S.chunks(mine, 2 if not ctx.thorough else 6):
            jobs.append((s, ch))
    models, keys = {}, {}
    for i, c in enumerate(cases):
        k = keys[i] = repr((c['n'], c['v'], c['L'], c['ops']))
        if k not in models:
            models[k] = c
    import concurrent.futures as cf
    with cf.ProcessPoolExecutor(NCPU) as ex:
        for k, m in zip(list(models), ex.map(model_of, list(models.values()), chunksize=4)):
            models[k] = m

    def one(job):
        s, ch = job
        return job, S.run_cases(ctx, exes[s], ch, timeout=240)
    for (s, ch), (recs, failure, _) in pmap(one, jobs):
        for i, c in ch:
            if failure and failure[0] == i:
                ctx.fail(f'{s}: the solver ended abnormally ({failure[1].brief()})', c)
                break
            if i not in recs:
                if failure:
                    break
                raise CheckError('no record of a case')
            bad = judge(ctx, c, recs[i], models[keys[i]])
            m = models[keys[i]][-1]
            ctx.case((s, keys[i]), nontrivial=bool((m.f != R.adv_init(m.n)).any()), sample={'solver': s, 'n': c['n'], 'v': c['v'], 'ops': c['ops']})
            ctx.count('fields', len(models[keys[i]]))
            ctx.count('cells', int(m.f.size) * len(models[keys[i]]))
            ctx.count(f'solver {s}')
            if bad:
                ctx.fail(f'{s}: {bad} (n={c["n"]} v={c["v"]} L={c["L"]})', c)
        if failure and failure[0] is None:
            ctx.fail(f'{s}: the solver ended abnormally ({failure[1].brief()})', ch[0][1])
