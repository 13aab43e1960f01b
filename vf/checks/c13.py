"""C13: the rules of one-sided communication, monitored online by simMPI."""
from ..core import *
from .. import filt as F, gen as G, programs as P


def cases(ctx):
    rng = ctx.rng
    res = []

    def add(**c):
        res.append(dict(seed=rng.randrange(1 << 30), xfer=rng.choice(['random', 'lazy', 'eager']), **c))
    for k in range(ctx.pick(130, 2000)):
        N = F.pick_n(rng, k, 0.1)
        nobj = rng.randint(1, 3)
        probs = {str(j): F.problem(rng, N, cells=800) for j in range(nobj)}
        if rng.random() < 0.08:     # no decomposition: construct and destroy only
            p = probs['0']
            p['n'] = [7] * len(p['n'])
            if not G.decomps(p['n'], N):
                add(kind='filter', N=N, ops=[F.new_op(0, dict(p, st=[[[0] * len(p['n']), 1.0]])), ['vtk', 0, 'x.vtk'], ['del', 0]])
            continue
        ops, live = [], []
        for j in range(nobj):
            p = probs[str(j)]
            ops += [F.new_op(j, p), F.idx_op(rng, j, len(p['n']))]
            live.append(j)
        for _ in range(rng.randint(1, 14)):
            j = rng.choice(live)
            r = rng.random()
            p = probs[str(j)]
            if r < 0.5:
                ops.append(['apply', j])
            elif r < 0.75:
                ops.append(['copy', j])
            elif r < 0.85:
                ops.append([rng.choice(['sumin', 'sumout']), j])
            elif r < 0.92:
                ops.append(F.pos_op(rng, j, len(p['n'])))
            elif len(p['n']) <= 3:
                ops.append(['vtk', j, 'x.vtk'])
            if len(live) > 1 and rng.random() < 0.05:
                ops.append(['del', live.pop(rng.randrange(len(live)))])
        add(kind='filter', N=N, ops=ops)
    for n, N in F.LARGE:
        p = F.large(rng, n, N, rng.choice(['laplace', 'wide']))
        add(kind='filter', N=N, ops=[F.new_op(0, p), F.idx_op(rng, 0, len(n)), ['apply', 0], ['copy', 0], ['apply', 0]])
    for k in range(ctx.pick(60, 700)):
        prog = rng.choice(['laplacian', 'laplacian', 'upwindMpi', 'upwindMpi', 'testStencil2d'])
        nd = rng.choice([1, 2, 2, 3, 4]) if prog == 'laplacian' else {'upwindMpi': 3, 'testStencil2d': 2}[prog]
        nc = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16])
        while nc ** nd > 3000:
            nc = rng.randint(1, 6)
        ok = [p for p in range(1, 37) if G.decomps([nc] * nd, p)]
        N = rng.choice(ok) if rng.random() < 0.85 else rng.randint(1, 20)
        args = ['-numCells', nc] + (['-numDims', nd] if prog == 'laplacian' else []) + (['-numSteps', rng.randint(1, 6)] if prog == 'upwindMpi' else [])
        r = rng.random()
        if r < 0.3 and nd <= 3:
            args.append('-vtk')
        elif r < 0.38:
            args = rng.choice([['-h'], ['-bogus'], ['-numCells', 4, '-nope']])
        add(kind='program', prog=prog, N=N, args=args)
    return res


def run(ctx, cases):
    progs = sorted({c['prog'] for c in cases if c['kind'] == 'program'})
    exes = P.build(ctx, progs, filt=any(c['kind'] == 'filter' for c in cases))
    ctx.rule = ('a case is one run of a filter history or of a distributed program on N processes under one seeded schedule; monitors: matching '
                'collectives, completion, epochs, target range, receive buffers (poisoned until the epoch ends), exposed memory unchanged inside an epoch, '
                'windows and memory released once and in order; distinct = event orders; non-trivial: at least one remote read or a refused run')
    ctx.assumptions = ['the rules are those of MPI-3.1 for fence epochs; calls simMPI does not provide would not build']

    def one(c):
        if c['kind'] == 'filter':
            s = F.run_ops(ctx, exes['filter'], c['ops'], c['N'], c['seed'], c['xfer'])
        else:
            s = run_sim(ctx, exes[c['prog']], c['args'], c['N'], c['seed'], c['xfer'])
        det = sim_detail(s) if s.viols else ''
        shutil.rmtree(s.dir, ignore_errors=True)
        return s, det
    for c, (s, det) in zip(cases, pmap(one, cases)):
        F.sim_counts(ctx, s)
        cn = s.summary.get('counts', {})
        ctx.case(s.summary.get('trace') or json.dumps(c), nontrivial=cn.get('remote_gets', 0) > 0 or cn.get('windows', 0) == 0,
                 sample={k: c[k] for k in ('kind', 'prog', 'args', 'N', 'xfer') if k in c})
        if s.viols:
            ctx.fail(f'{c.get("prog", "Filter")} {c.get("args", "")} N={c["N"]}: {s.viols[0]}{det}', c)
