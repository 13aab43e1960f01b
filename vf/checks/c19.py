"""C19: bit for bit the same data under every schedule and transfer time."""
from ..core import *
from .. import filt as F


def cases(ctx):
    rng = ctx.rng
    res = []
    for k in range(ctx.pick(36, 300)):
        N = rng.choice([2, 2, 3, 4, 4, 5, 6, 6, 8, 8, 9, 12, 16, 24])
        p = F.problem(rng, N, cells=1200, kind=rng.choice([None, 'wide', 'laplace', 'dense', 'upwind']))
        nd = len(p['n'])
        ops = [F.new_op(0, p), F.idx_op(rng, 0, nd)]
        probs = {'0': p}
        two = rng.random() < 0.4
        if two:
            q = F.problem(rng, N, cells=600)
            probs['1'] = q
            ops += [F.new_op(1, q), F.idx_op(rng, 1, len(q['n']))]
        for _ in range(rng.randint(2, 6)):
            for j in ([0, 1] if two else [0]):
                ops += [['apply', j], ['out', j], ['copy', j]]
            if rng.random() < 0.3:
                ops += [['sumout', 0]]
            if rng.random() < 0.3:
                ops += [['apply', 0], ['out', 0]]
        ops += [['in', j] for j in ([0, 1] if two else [0])]
        res.append(dict(N=N, probs=probs, ops=ops, scheds=[[rng.randrange(1 << 30), x] for x in
                        ['eager', 'lazy'] + [rng.choice(['random', 'random', 'lazy', 'eager']) for _ in range(ctx.pick(7, 38))]]))
    for N in (1, 2, 4):
        p, ops = F.long_history(rng, N, 150, every=20)
        res.append(dict(N=N, probs={'0': p}, ops=ops, scheds=[[rng.randrange(1 << 30), x] for x in ['eager', 'lazy', 'random']]))
    return res


def run(ctx, cases):
    exe = F.build(ctx)
    ctx.rule = ('a case is one history on N processes run under many seeded schedules (4 scheduling strategies; remote reads executed at once, at the '
                'closing fence, or in between); every recorded value of every process is compared bit for bit with the first schedule; '
                'distinct = distinct event orders seen (trace hashes), non-trivial: at least two different event orders with remote reads')
    ctx.assumptions = ['simMPI moves the data of a remote read at any moment the epoch allows']
    flat = [(i, sd, x) for i, c in enumerate(cases) for sd, x in c['scheds']]

    def one(t):
        i, sd, x = t
        c = cases[i]
        s = F.run_ops(ctx, exe, c['ops'], c['N'], sd, x)
        data = [[(a, b, v.tobytes()) for a, b, v in r] for r in s.recs]
        shutil.rmtree(s.dir, ignore_errors=True)
        det = sim_detail(s) if s.viols else ''
        return s, data, det
    results = pmap(one, flat)
    first = {}
    orders = {}
    for (i, sd, x), (s, data, det) in zip(flat, results):
        c = cases[i]
        F.sim_counts(ctx, s)
        tr = s.summary.get('trace')
        orders.setdefault(i, set()).add(tr)
        ctx.case((i, tr, x), nontrivial=s.summary.get('counts', {}).get('remote_gets', 0) > 0, sample={'N': c['N'], 'n': c['probs']['0']['n'], 'schedule': sd, 'xfer': x})
        if s.viols:
            ctx.fail(f'N={c["N"]} schedule {sd} {x}: {s.viols[0]}{det}', c)
            continue
        if i not in first:
            first[i] = (sd, x, data)
            continue
        sd0, x0, d0 = first[i]
        if data != d0:
            for rk in range(c['N']):
                if data[rk] != d0[rk]:
                    k = next((k for k, (a, b) in enumerate(zip(data[rk], d0[rk])) if a != b), -1)
                    ctx.fail(f'N={c["N"]} n={c["probs"]["0"]["n"]}: rank {rk} record {k} ({data[rk][k][0] if data[rk] else "none"}) differs between schedule {sd0} ({x0}) and {sd} ({x})', c)
                    break
    ctx.extra['distinct_event_orders'] = sum(len(o) for o in orders.values())
