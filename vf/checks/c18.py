"""C18: initial data and exposed layers of the distributed filter."""
from ..core import *
from .. import filt as F


def cases(ctx):
    rng = ctx.rng
    res = []
    for k in range(ctx.pick(200, 2500)):
        N = F.pick_n(rng, k)
        probs, ops = {}, []
        for j in range(1 if N > 16 else rng.randint(1, 3)):
            p = F.problem(rng, N, cells=2000 if N > 16 else 3000, kind=rng.choice([None, 'wide', 'laplace', 'dense']))
            probs[str(j)] = p
            nd = len(p['n'])
            wins = [['win', j] + s for s in F.sides(p)]
            ops += [F.new_op(j, p)] + (F.burst(rng, j, nd) if rng.random() < 0.2 else []) + [F.pos_op(rng, j, nd), ['in', j]] + wins
            ops += [F.idx_op(rng, j, nd), ['in', j]] + wins
            if rng.random() < 0.6:
                ops += [['apply', j], ['copy', j], ['in', j]] + wins
            if rng.random() < 0.5:
                ops.append(F.where_op(rng, j, p['n']))
            if rng.random() < 0.3:
                ops += F.burst(rng, j, nd) + [['in', j]] + wins
            if rng.random() < 0.3:
                ops += [F.pos_op(rng, j, nd), ['in', j]] + wins
        res.append(dict(N=N, seed=rng.randrange(1 << 30), xfer='random', probs=probs, ops=ops))
    for n, N in F.LARGE:
        p = F.large(rng, n, N)
        wins = [['win', 0] + s for s in F.sides(p)]
        ops = [F.new_op(0, p), F.pos_op(rng, 0, len(n)), ['in', 0]] + wins
        res.append(dict(N=N, seed=rng.randrange(1 << 30), xfer='random', probs={'0': p}, ops=ops))
    # axes longer than single precision numbers tell apart: positions only
    for n, N in [([20000003], 1), ([3, 9000002], 2), ([16777300], 4)]:
        p = F.large(rng, n, N)
        res.append(dict(N=N, seed=rng.randrange(1 << 30), xfer='random', probs={'0': p}, ops=[F.new_op(0, p), F.where_op(rng, 0, n, 200)]))
    return res


def run(ctx, cases):
    exe = F.build(ctx)
    ctx.rule = ('a case is one grid with its domain, stencil and process count; after every operation that sets data the value of every cell on its '
                'owner and of every exposed layer is compared with the model; non-trivial: every case (random functions separate all axes)')
    ctx.assumptions = ['simMPI executes MPI calls with the semantics of the MPI standard']

    def judge(c):
        probs = {int(k): p for k, p in c['probs'].items()}
        s = F.run_ops(ctx, exe, c['ops'], c['N'], c['seed'], c['xfer'])
        bad = F.check_history(ctx, s, c['ops'], probs, c['N'])
        shutil.rmtree(s.dir, ignore_errors=True)
        return bad, s
    for c, (bad, s) in zip(cases, pmap(judge, cases)):
        F.sim_counts(ctx, s)
        for p in c['probs'].values():
            ctx.case((c['N'], p['n'], p['lo'], p['hi'], p['st']), sample={'N': c['N'], 'n': p['n'], 'lo': p['lo'], 'hi': p['hi']})
        if bad:
            ctx.fail(f'N={c["N"]}: {bad}', c)
