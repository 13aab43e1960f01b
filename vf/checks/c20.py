"""C20: random operation histories on several filters and on the solvers,
against sequential models."""
from ..core import *
from .. import filt as F, solvers as S, gen as G, ref as R


def cases(ctx):
    rng = ctx.rng
    res = []
    for k in range(ctx.pick(170, 2200)):
        N = rng.choice([1, 1, 2, 2, 3, 4, 4, 5, 6, 8, 8, 9, 12, 16])
        nobj = rng.choice([1, 2, 2, 3])
        probs, ops, live = {}, [], []
        total = rng.randint(8, 40)
        nxt = 0
        while len(ops) < total or not live:
            if len(live) < nobj and (not live or rng.random() < 0.15):
                p = F.problem(rng, N, cells=400)
                probs[str(nxt)] = p
                ops += [F.new_op(nxt, p)] + (F.burst(rng, nxt, len(p['n'])) if rng.random() < 0.25 else []) + [(F.idx_op if rng.random() < 0.6 else F.pos_op)(rng, nxt, len(p['n']))]
                live.append(nxt)
                nxt += 1
                continue
            j = rng.choice(live)
            p = probs[str(j)]
            nd = len(p['n'])
            if rng.random() < 0.02:
                ops += F.overflow_ops(rng, j, nd) + [F.idx_op(rng, j, nd), ['apply', j]]
                continue
            op = rng.choice(['apply'] * 5 + ['copy'] * 4 + ['in', 'out'] * 2 + ['sumin', 'sumout', 'setpos', 'setidx', 'vtk', 'vtk', 'vtk', 'win', 'dst', 'del'])
            if op == 'setpos':
                ops.append(F.pos_op(rng, j, nd))
            elif op == 'setidx':
                ops.append(F.idx_op(rng, j, nd))
            elif op in ('win', 'dst'):
                sd = F.sides(p)
                if sd and (op == 'win' or ['apply', j] in ops):
                    ops.append([op, j] + rng.choice(sd))
            elif op == 'vtk':
                if nd <= 3:
                    ops.append(['vtk', j, f'h{len(ops)}.vtk'])
            elif op == 'del':
                if len(live) > 1 and rng.random() < 0.5:
                    ops.append(['del', j])
                    live.remove(j)
            else:
                ops.append([op, j])
        for j in live:
            ops += [['out', j], ['in', j]]
        res.append(dict(kind='filter', N=N, seed=rng.randrange(1 << 30), xfer=rng.choice(['random', 'lazy', 'eager']), probs=probs, ops=ops))
    for N in (1, 2, 3):
        p, ops = F.long_history(rng, N, ctx.pick(700, 3000), every=300)
        res.append(dict(kind='filter', N=N, seed=rng.randrange(1 << 30), xfer='random', probs={'0': p}, ops=ops))
    for s in S.ALL:
        for k in range(ctx.pick(25, 250)):
            nd = 3 if not S.dims_ok(s, 2) else rng.choice([1, 2, 3, 3, 4])
            n = G.extents(rng, nd, 800, big=0.05)
            v, L = G.velocity(rng, nd), G.lengths(rng, nd)
            dt = G.timestep(rng, n, v, L, 'stable')
            a, b = [], []
            tot = 0
            for _ in range(rng.randint(2, 6)):
                m = rng.choice([0, 1, 1, 2, 3, rng.randint(1, 20)])
                tot += m
                a.append(['adv', m, dt])
                for _ in range(rng.randint(0, 3)):
                    a.append(rng.choice([['sum'], ['std'], ['dump'], ['vtk', 'x.vtk'] if nd <= 3 else ['sum']]))
            a.append(['dump'])
            b = [['adv', tot, dt], ['dump']]
            res.append(dict(kind='solver', solver=s, n=n, v=v, L=L, a=a, b=b, thr=rng.choice([1, 1, 2, 4])))
    # several solver objects, alike in all but one respect, used in turn
    for s in S.ALL:
        for k in range(ctx.pick(16, 120)):
            res.append(many(rng, s))
    for s in S.ALL:
        n, L = rng.choice(G.LARGE3), [1.0, 1.0, 1.0]
        v = [rng.choice([-1.0, 1.0]) for _ in n]
        dt = G.timestep(rng, n, v, L, 'stable')
        res.append(dict(kind='solver', solver=s, n=n, v=v, L=L, a=[['adv', 2, dt], ['sum'], ['adv', 3, dt], ['dump']], b=[['adv', 5, dt], ['dump']], thr=rng.choice([1, 2, 4])))
    return res


def many(rng, s):
    nd = 3 if not S.dims_ok(s, 2) else rng.choice([1, 2, 3, 3])
    n, v, L = G.extents(rng, nd, 600, big=0.05), G.velocity(rng, nd), G.lengths(rng, nd)
    objs = [dict(n=n, v=v, L=L)]
    for _ in range(rng.randint(1, 3)):
        o = {k: list(x) for k, x in rng.choice(objs).items()}
        j = rng.randrange(nd)
        what = rng.choice('nvL=')
        if what == 'n':
            o['n'] = o['n'][::-1] if rng.random() < 0.4 else [x + (i == j) for i, x in enumerate(o['n'])]
        elif what == 'v':
            o['v'][j] = rng.choice([-o['v'][j], 0.0, o['v'][j] / 2])
        elif what == 'L':
            o['L'][j] *= rng.choice([2.0, 4.0, 3.0])
        objs.append(o)
    dt = min(G.timestep(rng, o['n'], o['v'], o['L'], 'stable') for o in objs)
    live, ops, cur = [], [], None
    for _ in range(rng.randint(6, 20)):
        if len(live) < len(objs) and (not live or rng.random() < 0.4):
            cur = len(live)
            live.append(cur)
            ops.append(['new', cur])
        elif rng.random() < 0.1:     # again from the start
            cur = rng.choice(live)
            ops.append(['new', cur])
        k = rng.choice(live)
        if k != cur:
            ops.append(['use', k])
            cur = k
        ops.append(rng.choice([['adv', rng.choice([0, 1, 1, 2, 5]), rng.choice([dt, dt, dt, dt / 2])]] * 3 + [['dump'], ['sum']]))
    for k in live:
        ops += [['use', k], ['dump']]
    return dict(kind='many', solver=s, objs=objs, ops=ops, thr=rng.choice([1, 1, 2, 4]))


def judge_many(ctx, c, recs):
    mods, cur = {}, None
    it = iter(recs)
    for pos, op in enumerate(c['ops']):
        if op[0] == 'new':
            o = c['objs'][op[1]]
            cur = op[1]
            mods[cur] = R.Adv(o['n'], o['v'], o['L'])
        elif op[0] == 'use':
            cur = op[1]
        elif op[0] == 'adv':
            mods[cur].advect(op[1], op[2])
        else:
            r = next(it, None)
            if r is None:
                return f'operation {pos} ({op[0]}) recorded nothing'
            m = mods[cur]
            if op[0] == 'dump':
                bad = m.mismatch(r[1])
                if bad:
                    return f'operation {pos}: object {cur} of {len(c["objs"])}: {bad}'
                ctx.count('fields of several objects')
            else:
                t = float(m.f.sum())
                if not abs(r[1][0] - t) <= 2 * float(m.e.sum()) + 4 * R.EPS * m.f.size * float(np.abs(m.f).sum()) + R.TINY:
                    return f'operation {pos}: check sum of object {cur} is {r[1][0]!r} instead of {t!r}'
    return None


def run(ctx, cases):
    ctx.rule = ('a case is one random history (up to 40 operations on up to 3 filters over N processes, or a split run of a solver with interleaved '
                'observations against the unsplit run); every observation is compared with the sequential model; non-trivial: the history applies or advances')
    ctx.assumptions = ['simMPI executes MPI calls with the semantics of the MPI standard', 'the destination buffers are read only after an application']
    exe = F.build(ctx) if any(c['kind'] == 'filter' for c in cases) else None
    names = sorted({c['solver'] for c in cases if c['kind'] != 'filter'})
    exes = S.build_many(ctx, names)
    fl = [c for c in cases if c['kind'] == 'filter']

    def judge(c):
        probs = {int(k): p for k, p in c['probs'].items()}
        s = F.run_ops(ctx, exe, c['ops'], c['N'], c['seed'], c['xfer'])
        bad = check(ctx, s, c['ops'], probs, c['N'])
        shutil.rmtree(s.dir, ignore_errors=True)
        return bad, s
    for c, (bad, s) in zip(fl, pmap(judge, fl)):
        F.sim_counts(ctx, s)
        ctx.count('operations', len(c['ops']))
        ctx.case(json.dumps(c, sort_keys=True), nontrivial=any(o[0] == 'apply' for o in c['ops']), sample={'N': c['N'], 'history': [o[:2] for o in c['ops']][:12]})
        if bad:
            ctx.fail(f'N={c["N"]}: {bad}', c)
    jobs = [(s, ch) for s in names for ch in S.chunks([c for c in cases if c['kind'] == 'solver' and c['solver'] == s], 2) if ch]

    def one(job):
        s, ch = job
        runs = [(2 * i + h, dict(c, ops=c['ab'[h]])) for i, c in enumerate(ch) for h in (0, 1)]
        return S.run_cases(ctx, exes[s], runs, timeout=240)
    for (s, ch), (recs, failure, _) in zip(jobs, pmap(one, jobs)):
        for i, c in enumerate(ch):
            bad = None
            for h in (0, 1):
                if failure and failure[0] == 2 * i + h:
                    bad = f'ended abnormally ({failure[1].brief()})'
            if not bad and (2 * i not in recs or 2 * i + 1 not in recs):
                break
            if not bad:
                m = R.Adv(c['n'], c['v'], c['L'])
                m.advect(c['b'][0][1], c['b'][0][2])
                x, y = recs[2 * i][-1][1], recs[2 * i + 1][-1][1]
                if x.size != y.size or (np.abs(x - y) > 2 * m.e.ravel() + R.TINY).any() or np.isnan(x).any() != np.isnan(y).any():
                    bad = f'{c["b"][0][1]} steps at once and in parts with observations in between differ by {np.abs(x - y).max() if x.size == y.size else "size"!r}'
                # an observation changes nothing: two dumps with no step in between are the same bits
                prev = None
                it = iter(recs[2 * i])
                for op in c['a']:
                    if op[0] == 'adv':
                        prev = None
                    elif op[0] != 'vtk':
                        t, v = next(it)
                        if op[0] == 'dump':
                            if prev is not None and prev != v.tobytes():
                                bad = bad or 'an observation changes the field'
                            prev = v.tobytes()
            ctx.case((s, json.dumps(c, sort_keys=True)), nontrivial=any(c['v']), sample={'solver': s, 'n': c['n'], 'history': c['a'][:6]})
            ctx.count('solver histories')
            if bad:
                ctx.fail(f'{s}: {bad} (n={c["n"]} v={c["v"]})', c)
        if failure and failure[0] is None:
            ctx.fail(f'{s}: ended abnormally ({failure[1].brief()})', ch[0])
    jobs = [(s, ch) for s in names for ch in S.chunks([c for c in cases if c['kind'] == 'many' and c['solver'] == s], 2) if ch]
    for (s, ch), (recs, failure, _) in zip(jobs, pmap(lambda j: S.run_cases(ctx, exes[j[0]], list(enumerate(j[1])), timeout=240), jobs)):
        for i, c in enumerate(ch):
            if failure and failure[0] == i:
                ctx.fail(f'{s}: ended abnormally ({failure[1].brief()})', c)
            if i not in recs or failure and failure[0] == i:
                break
            bad = judge_many(ctx, c, recs[i])
            ctx.case((s, json.dumps(c, sort_keys=True)), nontrivial=any(any(o['v']) for o in c['objs']), sample={'solver': s, 'objects': c['objs'], 'history': c['ops'][:8]})
            ctx.count('histories of several solver objects')
            if bad:
                ctx.fail(f'{s}: {bad}', c)
        if failure and failure[0] is None:
            ctx.fail(f'{s}: ended abnormally ({failure[1].brief()})', ch[0])


def check(ctx, s, ops, probs, N):
    return F.check_history(ctx, s, ops, probs, N)
