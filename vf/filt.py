"""Distributed filter problems under simMPI: generation, running, models."""
import itertools
from .core import *
from . import gen as G, ref as R, vtk as V

NPROCS = [1, 1, 2, 2, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 10, 11, 12, 12, 13, 15, 16, 16, 18, 20, 24, 25, 27, 30, 32, 36]
NBIG = [48, 49, 60, 64]
NHUGE = [66, 70, 72, 80, 96, 100, 108, 120, 128]


def pick_n(rng, k, big=0.05):
    """Number of processes of the k-th case."""
    return rng.choice(NHUGE) if k == 0 else rng.choice(NPROCS) if rng.random() < 1 - big else rng.choice(NBIG)


def grid(rng, N, nd, cells=4000, maxlocal=6):
    """Extents that admit a decomposition over N processes."""
    for _ in range(1000):
        d = [1] * nd
        m = N
        p = 2
        while m > 1:
            if m % p == 0:
                d[rng.randrange(nd)] *= p
                m //= p
            else:
                p += 1
        n = [x * rng.choice([1, 1, 2, 3, rng.randint(1, maxlocal)]) for x in d]
        if rng.random() < 0.15:   # a long sub-domain
            j = rng.randrange(nd)
            n[j] = d[j] * rng.choice(G.SPECIAL + [rng.randint(7, 40)] * 6)
        if np.prod(n) <= cells:
            return n
    return d


def widths(n, N):
    """Widest offset per axis that every best decomposition allows."""
    ls = G.best_locals(n, N)
    return [min(l[j] for l in ls) for j in range(len(n))]


def weight(rng):
    r = rng.random()
    if r < 0.2:
        return float(rng.choice([1, -1, 2]))
    if r < 0.25:
        return 10 ** rng.uniform(-6, 6)
    return round(rng.uniform(-2, 2), 6)


def stencil(rng, n, N, kind=None):
    nd = len(n)
    w = widths(n, N)
    kind = kind or rng.choice(['random', 'random', 'random', 'laplace', 'upwind', 'wide', 'dense', 'centre'])
    offs = set()

    def unit(j, o):
        return tuple(o if k == j else 0 for k in range(nd))
    if kind == 'laplace':
        offs = {unit(j, s) for j in range(nd) for s in (-1, 1)} | {unit(0, 0)}
    elif kind == 'upwind':
        offs = {unit(j, rng.choice([-1, 1])) for j in range(nd)} | {unit(0, 0)}
    elif kind == 'wide':
        offs = {unit(j, s * w[j]) for j in range(nd) for s in (-1, 1) if rng.random() < 0.8}
    elif kind == 'dense':
        for j in range(nd):
            for o in range(-min(w[j], 4), min(w[j], 4) + 1):
                offs.add(unit(j, o))
    elif kind == 'centre':
        offs = {unit(0, 0)}
    if kind == 'random' or not offs:
        for _ in range(rng.randint(1, 2 * nd + 2)):
            j = rng.randrange(nd)
            o = rng.randint(0, w[j]) * rng.choice([-1, 1])
            offs.add(unit(j, o))
    offs = sorted(offs)
    r = rng.random()
    s = 10 ** rng.uniform(-30, -7) if r < 0.08 else 10 ** rng.uniform(3, 6) if r < 0.11 else 1.0
    st = [[list(o), weight(rng) * s] for o in offs]
    if len(st) > 1 and rng.random() < 0.15:     # a weight of zero, often that of the longest offset
        k = rng.choice([0, len(st) - 1, rng.randrange(len(st))])
        st[k][1] = 0.0
    return st


def corners(rng, nd):
    lo, hi = [], []
    for _ in range(nd):
        a = rng.choice([0.0, 0.0, -1.0, round(rng.uniform(-5, 5), 3)])
        b = rng.choice([1.0, round(10 ** rng.uniform(-2, 2), 4), round(10 ** rng.uniform(-2, 2), 4), 10 ** rng.uniform(-4, 4)])
        lo.append(a)
        hi.append(a + b)
    return lo, hi


def problem(rng, N, nd=None, cells=4000, kind=None):
    nd = nd or (rng.choice([5, 5, 6, 7]) if rng.random() < 0.06 else rng.choice([1, 2, 2, 2, 3, 3, 3, 4]))
    n = grid(rng, N, nd, cells)
    lo, hi = corners(rng, nd)
    return dict(n=n, lo=lo, hi=hi, st=stencil(rng, n, N, kind))


# more cells, longer axes or larger faces than 16 bits can count
LARGE = [([70001], 1), ([66000], 2), ([260, 262], 1), ([300, 256], 4), ([3, 129, 200], 1), ([48, 40, 36], 3), ([1, 66000, 1], 1),
         ([2, 300, 230], 1), ([70001, 2], 2), ([2, 40002], 4), ([260, 2, 262], 2)]


def large(rng, n, N, kind='laplace'):
    lo, hi = corners(rng, len(n))
    st = stencil(rng, n, N, kind)
    nd = len(n)
    if kind == 'wide':
        w = widths(n, N)
        j = max(range(nd), key=lambda k: w[k])
        st = [[[w[j] if k == j else 0 for k in range(nd)], weight(rng)], [[-(w[j] * 2 // 3) if k == j else 0 for k in range(nd)], weight(rng)]]
    return dict(n=n, lo=lo, hi=hi, st=st)


def pos_op(rng, k, nd):
    s = 10 ** rng.uniform(-30, 20) if rng.random() < 0.15 else 1.0
    return ['setpos', k] + [round(rng.uniform(-3, 3), 4) * s for _ in range(nd + 1)]


def where_op(rng, k, n, m=24):
    """Asks for the positions of m cells, the corners and others."""
    res = ['where', k, m]
    for i in range(m):
        res += [rng.choice([0, x // 2, x - 1, x - 2 if x > 1 else 0, rng.randrange(x), rng.randrange(x)]) for x in n]
    return res


def overflow_ops(rng, k, nd):
    """Data whose sums overflow, to be replaced by ordinary data."""
    return [['setpos', k, rng.choice([-1.0, 1.0]) * rng.choice([1.7e308, 9e307])] + [0.0] * nd, ['apply', k]] + [['copy', k]] * rng.choice([0, 1, 1]) + [['apply', k]] * rng.choice([0, 1])


def burst(rng, k, nd):
    """The input data set again and again."""
    f = rng.choice([idx_op, idx_op, pos_op, None])
    return [(f or rng.choice([idx_op, pos_op]))(rng, k, nd) for _ in range(rng.randint(3, 9))]


def idx_op(rng, k, nd):
    return ['setidx', k] + [rng.randint(0, 5)] + [rng.randint(1, 1000) for _ in range(nd)] + [rng.choice([97, 1009, 100003])]


def new_op(k, p):
    nd = len(p['n'])
    return ['new', k, nd] + p['n'] + p['lo'] + p['hi'] + [len(p['st'])] + [x for o, w in p['st'] for x in o + [w]]


def long_history(rng, N, times, cells=60, every=None):
    """One filter applied very often; the field neither grows nor vanishes."""
    p = problem(rng, N, nd=rng.choice([1, 2]), cells=max(cells, N), kind='upwind')
    t = sum(abs(w) for _, w in p['st'])
    p['st'] = [[o, abs(w) / t] for o, w in p['st']]
    ops = [new_op(0, p), idx_op(rng, 0, len(p['n']))]
    for k in range(times):
        ops += [['apply', 0], ['copy', 0]]
        if every and k % every == every - 1:
            ops += [['out', 0]]
    return p, ops + [['out', 0], ['in', 0], ['sumout', 0]]


def sides(p):
    res = []
    for o, w in p['st']:
        if w == 0:      # may be left out altogether
            continue
        s = [0 if x == 0 else (-1 if x > 0 else 1) for x in o]
        if any(s) and s not in res:
            res.append(s)
    return res


def tok(x):
    return repr(x) if isinstance(x, float) else str(x)


def build(ctx, san=True, opt='-O1', name='filter'):
    b = Builder(ctx)
    exe = build_sim(b, name, f'{VERIF}/harness/filter_harness.cc', san=san, opt=opt)
    b.go()
    return exe


class Run:
    pass


def run_ops(ctx, exe, ops, N, seed, xfer='random', env=None, timeout=200, wrapper=(), hang=60):
    d = ctx.dir('f')
    with open(f'{d}/case.txt', 'w') as f:
        for op in ops:
            f.write(' '.join(tok(x) for x in op) + '\n')
        f.write('end\n')
    s = run_sim(ctx, exe, [f'{d}/case.txt'], N, seed, xfer, outdir=d, env=env, timeout=timeout, wrapper=wrapper, hang=hang)
    s.recs = []
    for k in range(N):
        try:
            s.recs.append(read_recs(f'{d}/f.{k}.bin'))
        except FileNotFoundError:
            s.recs.append([])
    return s


def sim_counts(ctx, s):
    for k, v in s.summary.get('counts', {}).items():
        ctx.count('mpi ' + k, v)
    ctx.count('scheduler grants', s.summary.get('grants', 0))


def at(s, i):
    """The i-th record of every rank (all ranks record the same operations)."""
    return [r[i] if i < len(r) else None for r in s.recs]


def assemble(n, rows):
    """rows per rank of (indices.., value) -> global array, error text."""
    nd = len(n)
    g = np.full(n, np.nan)
    seen = np.zeros(n, dtype=int)
    for rk, r in enumerate(rows):
        if r is None:
            return None, f'rank {rk} recorded nothing'
        if r.size % (nd + 1):
            return None, f'rank {rk}: ragged output'
        a = r.reshape(-1, nd + 1)
        i = a[:, :nd].astype(int)
        if ((i < 0) | (i >= np.array(n))).any():
            return None, f'rank {rk} holds a cell outside the grid'
        np.add.at(seen, tuple(i.T), 1)
        g[tuple(i.T)] = a[:, nd]
    if (seen != 1).any():
        i = tuple(int(x) for x in np.argwhere(seen != 1)[0])
        return None, f'cell {i} is held {int(seen[i])} times'
    return g, None


def positions(p):
    nd = len(p['n'])
    ax = [p['lo'][j] + (np.arange(p['n'][j]) + 0.5) * ((p['hi'][j] - p['lo'][j]) / p['n'][j]) for j in range(nd)]
    return np.meshgrid(*ax, indexing='ij')


def set_value(p, op):
    """(value, error bound) of a setpos/setidx operation."""
    n, nd = p['n'], len(p['n'])
    if op[0] == 'setpos':
        c = op[2:]
        x = positions(p)
        v = np.full(n, float(c[0]))
        m = np.full(n, abs(c[0]))
        for j in range(nd):
            v = v + c[1 + j] * x[j]
            m = m + abs(c[1 + j]) * (np.abs(x[j]) + abs(p['lo'][j]) + abs(p['hi'][j]))
        return v, 16 * R.EPS * m
    c = op[2:]
    s = np.full(n, int(c[0]), dtype=np.int64)
    idx = np.indices(n)
    for j in range(nd):
        s = (s * 31 + int(c[1 + j]) * idx[j]) % int(c[-1])
    return s / float(c[-1]) - 0.25, np.zeros(n)


def apply(p, x, e):
    y, ey = R.stencil_apply(x, [(o, w) for o, w in p['st']])
    for o, w in p['st']:
        ey = ey + abs(w) * np.roll(e, [-k for k in o], axis=tuple(range(x.ndim)))
    return y, ey


def differs(g, v, e):
    bad = ~(np.abs(g - v) <= 2 * e + R.TINY)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return f'cell {i} is {g[i]!r}, expected {v[i]!r} ({int(bad.sum())} of {g.size} cells differ)'
    return None


class Model:
    """Sequential model of a set of filters over one operation history."""

    def __init__(self, nprocs):
        self.N = nprocs
        self.o = {}

    def new(self, k, p):
        z = np.zeros(p['n'])
        self.o[k] = dict(p=p, x=z, ex=z, y=z, ey=z)

    @np.errstate(all='ignore')
    def do(self, op):
        o = self.o[op[1]]
        if op[0] in ('setpos', 'setidx'):
            o['x'], o['ex'] = set_value(o['p'], op)
        elif op[0] == 'apply':
            o['y'], o['ey'] = apply(o['p'], o['x'], o['ex'])
        elif op[0] == 'copy':
            o['x'], o['ex'] = o['y'], o['ey']


RECORDS = {'where', 'in', 'out', 'win', 'dst', 'sumin', 'sumout', 'setpos', 'setidx', 'new', 'case'}


def check_history(ctx, s, ops, probs, N):
    """Compares every record of a run with the sequential model; returns the
    first difference. probs: problem of every filter id, in order of 'new'."""
    if s.viols:
        return f'{s.viols[0]}{sim_detail(s)}'
    m = Model(N)
    i = 0
    for pos, op in enumerate(ops):
        what = f'operation {pos} ({" ".join(tok(x) for x in op[:2])})'
        if op[0] == 'new':
            m.new(op[1], probs[op[1]])
            for rk, r in enumerate(at(s, i)):
                if r is None:
                    return f'{what}: rank {rk} recorded nothing'
                if r[2][0] != 1:
                    return f'{what}: rank {rk} has no valid decomposition over {N} processes for {probs[op[1]]["n"]}'
                if int(r[2][1]) != rk or int(r[2][2]) != N:
                    return f'{what}: rank {rk} of {N} says it is {r[2][1:]}'
        elif op[0] == 'where':
            p = m.o[op[1]]['p']
            nd = len(p['n'])
            lo, hi, n = (np.array(p[x], dtype=float) for x in ('lo', 'hi', 'n'))
            inds = np.array(op[3:], dtype=float).reshape(-1, nd)
            want = lo + (inds + 0.5) * ((hi - lo) / n)
            tol = 8 * R.EPS * (np.abs(lo) + np.abs(hi))
            for rk, r in enumerate(at(s, i)):
                if r is None or r[2].size != want.size:
                    return f'{what}: rank {rk} recorded {r and r[2].size} positions'
                bad = np.argwhere(~(np.abs(r[2].reshape(-1, nd) - want) <= tol))
                if len(bad):
                    q, j = (int(x) for x in bad[0])
                    return f'{what}: rank {rk} places cell {inds[q].astype(int).tolist()} of {p["n"]} at {r[2].reshape(-1, nd)[q].tolist()} instead of {want[q].tolist()}'
            ctx.count('positions compared', want.size * N)
        elif op[0] == 'vtk':
            o = m.o[op[1]]
            if np.isfinite(o['y']).all() and np.isfinite(o['ey']).all():
                try:
                    v = V.parse(f'{s.dir}/{op[2]}')
                except V.VtkError as e:
                    return f'{what}: the saved file is no valid file: {e}'
                want, tol = (np.asarray(o[q]).reshape(o['p']['n']).flatten(order='F') for q in ('y', 'ey'))
                if v.data.size != want.size:
                    return f'{what}: the saved file has {v.data.size} values for {want.size} cells'
                bad = ~(np.abs(v.data - want) <= 6e-6 * np.abs(want) + 2 * tol + 1e-300)
                if bad.any():
                    q = int(np.argwhere(bad)[0][0])
                    return f'{what}: value {q} of the saved file is {v.data[q]!r}, the output there is {want[q]!r}'
                ctx.count('saved files compared')
        elif op[0] != 'case' and op[0] != 'del':
            m.do(op)
            o = m.o[op[1]]
            if op[0] in ('in', 'out'):
                g, err = assemble(o['p']['n'], [r and r[2] for r in at(s, i)])
                if err:
                    return f'{what}: {err}'
                o['own'] = owners(o['p']['n'], [r[2] for r in at(s, i)])
                bad = differs(g, o['x'], o['ex']) if op[0] == 'in' else differs(g, o['y'], o['ey'])
                if bad:
                    return f'{what}: {bad}'
                ctx.count('cells compared', g.size)
            elif op[0] in ('sumin', 'sumout'):
                r = at(s, i)[0]
                x, e = (o['x'], o['ex']) if op[0] == 'sumin' else (o['y'], o['ey'])
                tol = float(np.sum(e)) * 2 + 4 * R.EPS * (x.size + N) * float(np.sum(np.abs(x))) + R.TINY
                if r is None or not abs(r[2][0] - float(np.sum(x))) <= tol:
                    return f'{what}: check sum {r and r[2][0]!r}, expected {float(np.sum(x))!r}'
                ctx.count('sums compared')
            elif op[0] == 'win':
                bad = check_window(o, op[2:], [r and r[2] for r in at(s, i)], N, o.get('own'))
                if bad:
                    return f'{what}: {bad}'
                ctx.count('windows compared', N)
        if op[0] in RECORDS:
            i += 1
    return None


def owners(n, rows):
    """rank that owns every cell (rows of 'in' or 'out' records)"""
    nd = len(n)
    own = np.full(n, -1)
    for rk, r in enumerate(rows):
        own[tuple(r.reshape(-1, nd + 1)[:, :nd].astype(int).T)] = rk
    return own


def check_window(o, side, rows, N, own=None):
    """Exposed layers hold the owner's input values; with the owner map also:
    cells of the owner only, each once, at least as deep as the longest offset."""
    n = o['p']['n']
    nd = len(n)
    for rk, r in enumerate(rows):
        if r is None:
            return f'rank {rk} recorded nothing'
        a = r.reshape(-1, nd + 1)
        if len(a) == 0:
            return f'rank {rk}: empty window'
        i = a[:, :nd].astype(int)
        if ((i < 0) | (i >= np.array(n))).any():
            return f'rank {rk}: window cell outside the grid'
        v, e = o['x'][tuple(i.T)], o['ex'][tuple(i.T)]
        bad = ~(np.abs(a[:, nd] - v) <= 2 * e + R.TINY)
        if bad.any():
            k = int(np.argwhere(bad)[0][0])
            return f'rank {rk}: the layer for side {side} holds {a[k, nd]!r} for cell {i[k].tolist()}, whose value is {v[k]!r}'
        if own is not None:
            if (own[tuple(i.T)] != rk).any():
                return f'rank {rk}: the layer for side {side} shows a cell of another process'
            if len({tuple(x) for x in i.tolist()}) != len(i):
                return f'rank {rk}: the layer for side {side} shows a cell twice'
            j = [abs(x) for x in side].index(1)
            w = max([abs(f[j]) for f, x in o['p']['st'] if f[j] * side[j] < 0 and x != 0])
            mine = np.argwhere(own == rk)
            edge = mine[:, j].min() if side[j] < 0 else mine[:, j].max()
            need = (np.abs(mine[:, j] - edge) < w).sum()
            got = (np.abs(i[:, j] - edge) < w).sum()
            if got != need:
                return f'rank {rk}: the layer for side {side} shows {got} of the {need} cells within {w} of the boundary'
    return None
