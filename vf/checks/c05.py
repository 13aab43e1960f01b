"""C05: the distributed filter against the global periodic stencil."""
from ..core import *
from .. import filt as F


def cases(ctx):
    rng = ctx.rng
    res = []
    for k in range(ctx.pick(220, 3000)):
        N = F.pick_n(rng, k, 0.07)
        probs, ops = {}, []
        for j in range(1 if N > 16 else rng.randint(1, 4)):
            p = F.problem(rng, N, cells=2000 if N > 16 else 4000)
            probs[str(j)] = p
            nd = len(p['n'])
            ops += [F.new_op(j, p), (F.idx_op if rng.random() < 0.7 else F.pos_op)(rng, j, nd), ['apply', j], ['out', j]]
            if rng.random() < 0.5:
                for _ in range(rng.randint(1, 3)):
                    ops += [['copy', j], ['apply', j]]
                ops += [['out', j]]
            if rng.random() < 0.15:
                ops += F.overflow_ops(rng, j, nd) + [F.idx_op(rng, j, nd), ['apply', j], ['out', j]]
            ops += [['in', j], ['sumout', j]]
            if rng.random() < 0.5:
                ops += [['del', j]]
        res.append(dict(N=N, seed=rng.randrange(1 << 30), xfer=rng.choice(['random', 'lazy', 'eager']), probs=probs, ops=ops))
    # large sub-domains, and long histories on small ones
    for n, N in F.LARGE + [([70001], 1), ([1, 140000], 2)]:
        p = F.large(rng, n, N, 'wide' if len(res) % 3 == 2 else 'laplace')
        ops = [F.new_op(0, p), F.idx_op(rng, 0, len(n)), ['apply', 0], ['out', 0]]
        res.append(dict(N=N, seed=rng.randrange(1 << 30), xfer='random', probs={'0': p}, ops=ops))
    for N in ctx.pick([1, 2, 4], [1, 2, 3, 4, 6, 8]):
        p, ops = F.long_history(rng, N, 70000 if N == 1 else ctx.pick(1100, 4000), every=500)
        res.append(dict(N=N, seed=rng.randrange(1 << 30), xfer='random', probs={'0': p}, ops=ops))
    res.sort(key=lambda c: -len(c['ops']))     # the long ones first
    return res


def run(ctx, cases):
    exe = F.build(ctx)
    ctx.rule = ('a case is a set of filters (extents, corners, stencil) on N simulated processes with one interleaving; every cell of every output and '
                'input is compared with the global model; non-trivial: more than one process or an offset that wraps')
    ctx.assumptions = ['simMPI executes MPI calls with the semantics of the MPI standard', 'offsets lie along one axis and are no longer than the sub-domain']
    for c, (bad, s) in zip(cases, pmap(lambda c: judge(ctx, exe, c), cases)):
        F.sim_counts(ctx, s)
        for p in c['probs'].values():
            ctx.case((c['N'], p['n'], p['st']), nontrivial=c['N'] > 1 or any(any(o) for o, _ in p['st']), sample={'N': c['N'], 'n': p['n'], 'stencil': p['st'][:4]})
            ctx.count(f'dims {len(p["n"])}')
        if bad:
            ctx.fail(f'N={c["N"]}: {bad}', c)


def judge(ctx, exe, c):
    probs = {int(k): p for k, p in c['probs'].items()}
    s = F.run_ops(ctx, exe, c['ops'], c['N'], c['seed'], c['xfer'])
    bad = F.check_history(ctx, s, c['ops'], probs, c['N'])
    shutil.rmtree(s.dir, ignore_errors=True)
    return bad, s
