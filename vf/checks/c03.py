"""C03: conservation, bounds and causality, monitored after every step of every
advection code: the ten solvers, the distributed filter with upwind stencils
and upwindMpi.cxx under simMPI, upwindMPI.py under mpirun."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G, ref as R, filt as F, vtk as V

EPS = R.EPS


class Monitor:
    """Online judge of the fields of one run, in step order."""

    def __init__(self, n, v):
        self.n, self.v = tuple(n), v
        self.reach = np.zeros(self.n, bool)
        self.reach[(0,) * len(n)] = True
        self.step = 0
        self.max = None

    def see(self, f, rel=0.0):
        """The field after self.step steps (rel: printed precision)."""
        f = np.asarray(f, float)
        if f.size != self.reach.size:
            return f'{f.size} values for {self.reach.size} cells'
        f = f.reshape(self.n)
        tol = 64 * EPS * (len(self.n) + 1) * (self.step + 1)
        if not np.isfinite(f).all():
            return f'step {self.step}: a value is not finite'
        s = float(np.sum(f))
        if abs(s - 1) > tol + EPS * f.size + rel:
            return f'step {self.step}: the sum is {s!r}'
        if f.min() < -tol:
            return f'step {self.step}: value {f.min()!r} below zero in cell {np.unravel_index(int(f.argmin()), self.n)}'
        m = float(f.max())
        if m > (1.0 if self.max is None else self.max) * (1 + rel) + tol:
            return f'step {self.step}: the maximum grows to {m!r} (was {self.max!r})'
        self.max = m
        bad = (f != 0) & ~self.reach
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            return f'step {self.step}: cell {i} holds {f[i]!r} but the pulse cannot have arrived'
        return None

    def advance(self, k=1):
        for _ in range(k):
            r = self.reach.copy()
            for j, vj in enumerate(self.v):
                if vj != 0:
                    r |= np.roll(self.reach, 1 if vj > 0 else -1, axis=j)
            self.reach = r
            self.step += 1


def solver_case(rng, nd, limit, maxsteps):
    n = G.extents(rng, nd, limit, big=0.06)
    v, L = G.velocity(rng, nd), G.lengths(rng, nd)
    k = rng.choice([5, 10, 20, rng.randint(1, maxsteps)])
    if rng.random() < 0.2:      # step exactly at the limit
        v = [rng.choice([-1.0, 1.0, 0.5, 0.25]) for _ in n]
        L = [float(x) for x in n]
        dt = 1.0 / sum(abs(x) for x in v)
        dt = 2.0 ** np.floor(np.log2(dt))
    else:
        dt = G.timestep(rng, n, v, L, 'stable')
    return dict(n=n, v=v, L=L, dt=float(dt), k=k)


def cases(ctx):
    rng = ctx.rng
    res = []
    for s in S.ALL:
        for _ in range(ctx.pick(36, 500)):
            nd = 3 if not S.dims_ok(s, 2) else rng.choice([1, 2, 3, 3, 3, 4])
            c = solver_case(rng, nd, 1500, 120 if rng.random() < 0.8 else 600)
            while c['k'] * np.prod(c['n']) > 120000:
                c['k'] = max(1, c['k'] // 2)
            res.append(dict(kind='solver', solver=s, thr=rng.choice([1, 2, 3, 5]), **c))
    for s in S.ALL:
        n, L = rng.choice(G.LARGE3), [1.0, 1.0, 1.0]
        v = [rng.choice([-1.0, 1.0]) for _ in n]
        res.append(dict(kind='solver', solver=s, thr=rng.choice([1, 2, 3, 5]), n=n, v=v, L=L, dt=G.timestep(rng, n, v, L, 'stable'), k=6))
    for k in range(ctx.pick(60, 800)):
        N = F.pick_n(rng, k, 0)
        nd = rng.choice([1, 2, 3, 3])
        n = F.grid(rng, N, nd, 1500)
        v, L = G.velocity(rng, nd), G.lengths(rng, nd)
        res.append(dict(kind='filter', N=N, n=n, v=v, L=L, dt=G.timestep(rng, n, v, L, 'stable'), k=rng.randint(1, 12), seed=rng.randrange(1 << 30)))
    for _ in range(ctx.pick(30, 250)):
        nc = rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 12, 12, 16])
        N = rng.choice([p for p in range(1, 33) if G.decomps([nc] * 3, p)])
        res.append(dict(kind='program', N=N, cells=nc, k=rng.randint(1, 14), seed=rng.randrange(1 << 30)))
    for k in range(ctx.pick(8, 60)):
        N = rng.choice([1, 2, 3, 4, 6, 8]) if k else rng.choice([12, 16, 18, 24])
        n = F.grid(rng, N, 3, 800)
        v, L = G.velocity(rng, 3), G.lengths(rng, 3)
        res.append(dict(kind='pympi', N=N, n=n, v=v, L=L, dt=G.timestep(rng, n, v, L, 'stable'), k=rng.randint(1, 25)))
    return res


def run(ctx, cases):
    ctx.rule = ('a case is one advection run observed after every step; monitors: sum, bounds, maximum, reachability; '
                'non-trivial: the pulse moved (some velocity and time step are not zero)')
    ctx.assumptions = ['Courant numbers over all axes add up to at most one']
    names = sorted({c['solver'] for c in cases if c['kind'] == 'solver'})
    exes = S.build_many(ctx, names)
    b = Builder(ctx)
    fx = px = None
    if any(c['kind'] == 'filter' for c in cases):
        fx = build_sim(b, 'filter', f'{VERIF}/harness/filter_harness.cc', san=False)
    if any(c['kind'] == 'program' for c in cases):
        px = build_sim(b, 'upwindMpi', f'{REPO}/upwind/cxx/upwindMpi.cxx', san=False)
    b.go()
    jobs = []
    for s in names:
        mine = [c for c in cases if c['kind'] == 'solver' and c['solver'] == s]
        jobs += [('solver', s, ch) for ch in S.chunks(mine, 2)]
    jobs += [(c['kind'], None, [c]) for c in cases if c['kind'] != 'solver']

    def one(job):
        kind, s, ch = job
        return {'solver': solver, 'filter': filt, 'program': program, 'pympi': pympi}[kind](ctx, {'filter': fx, 'program': px}.get(kind) or exes.get(s), ch)
    for job, out in zip(jobs, pmap(one, jobs)):
        for c, bad, steps in out:
            name = c.get('solver') or {'filter': 'Filter', 'program': 'upwindMpi.cxx', 'pympi': 'upwindMPI.py'}[c['kind']]
            ctx.case(json.dumps(c, sort_keys=True), nontrivial='v' not in c or (any(c['v']) and steps > 0), sample={k: c[k] for k in ('kind', 'n', 'v', 'k') if k in c})
            ctx.count('steps observed', steps)
            ctx.count(f'runs of {name}')
            if bad:
                ctx.fail(f'{name}: {bad} (' + ' '.join(f'{k}={c[k]}' for k in ('N', 'n', 'cells', 'v', 'L', 'dt') if k in c) + ')', c)


def follow(m, fields):
    for i, f in enumerate(fields):
        if i:
            m.advance()
        bad = m.see(f)
        if bad:
            return bad
    return None


def solver(ctx, exe, ch):
    res = []
    # the Monitor checks sums: threads must not matter
    runs = [(i, dict(c, ops=[['dump']] + [['adv', 1, c['dt']], ['dump']] * c['k'])) for i, c in enumerate(ch)]
    recs, failure, _ = S.run_cases(ctx, exe, runs, timeout=240)
    for i, c in enumerate(ch):
        f = [x for t, x in recs.get(i, []) if t == 'dump']
        bad = follow(Monitor(c['n'], c['v']), f)
        if not bad and len(f) != c['k'] + 1:
            if failure and failure[0] in (i, None):
                bad = f'ended abnormally ({failure[1].brief()})'
            elif failure:
                break
        res.append((c, bad, len(f)))
    return res


def filt(ctx, exe, ch):
    c = ch[0]
    nd = len(c['n'])
    co = R.adv_coeffs(c['n'], c['v'], c['L'], c['dt'])
    st = {}
    st[(0,) * nd] = 1.0 - sum(x for _, x in co)
    for j, (sh, x) in enumerate(co):
        o = tuple(-sh if q == j else 0 for q in range(nd))
        st[o] = st.get(o, 0.0) + x
    p = dict(n=c['n'], lo=[0.0] * nd, hi=c['L'], st=[[list(o), float(w)] for o, w in st.items()])
    ops = [F.new_op(0, p), ['setpulse', 0], ['in', 0]]
    for _ in range(c['k']):
        ops += [['apply', 0], ['out', 0], ['copy', 0]]
    s = F.run_ops(ctx, exe, ops, c['N'], c['seed'])
    if s.viols:
        return [(c, s.viols[0] + sim_detail(s), 0)]
    fields = []
    for i in range(1, c['k'] + 2):
        g, err = F.assemble(c['n'], [r and r[2] for r in F.at(s, i)])
        if err:
            return [(c, err, i)]
        fields.append(g)
    shutil.rmtree(s.dir, ignore_errors=True)
    return [(c, follow(Monitor(c['n'], c['v']), fields), len(fields))]


def program(ctx, exe, ch):
    c = ch[0]
    s = run_sim(ctx, exe, ['-numCells', c['cells'], '-numSteps', c['k'], '-vtk'], c['N'], c['seed'])
    if s.viols:
        return [(c, s.viols[0] + sim_detail(s), 0)]
    out = s.out(0)
    sums = re.findall(r'iter\s+(\d+)\s+check sum\s+in/out = (\S+) / (\S+)', out)
    for i, a, b in sums:
        if abs(float(a) - 1) > 1e-5 or abs(float(b) - 1) > 1e-5:
            return [(c, f'step {i}: the sums are {a} and {b}', 0)]
    m = Monitor([c['cells']] * 3, [1.0] * 3)
    m.advance(c['k'])
    try:
        f = V.parse(f'{s.dir}/upMpi.vtk').data
    except V.VtkError as e:
        return [(c, f'the field cannot be read: {e}', 0)]
    if f.size != c['cells'] ** 3:
        return [(c, f'{f.size} values stored', 0)]
    bad = m.see(f.reshape([c['cells']] * 3, order='F'), rel=1e-5)
    shutil.rmtree(s.dir, ignore_errors=True)
    return [(c, bad, 1 + len(sums))]


def mpirun(n):
    return ['mpirun', '--oversubscribe', '-np', str(n)]


def pympi(ctx, _, ch):
    c = ch[0]
    d = ctx.dir('pm')
    with open(f'{d}/cases.txt', 'w') as f:
        for l in S.case_lines(0, dict(c, ops=[['dump']] + [['adv', 1, c['dt']], ['dump']] * c['k'])):
            f.write(l + '\n')
        f.write('end\n')
    r = run_cmd(mpirun(c['N']) + [VENV_PY, f'{VERIF}/harness/pympi_driver.py', f'{d}/cases.txt'], cwd=d,
                env=base_env(VF_OUT=d, VF_PYDIR=f'{REPO}/upwind/python'), timeout=120)
    if r.rc != 0 or r.timeout:
        return [(c, f'ended abnormally ({r.brief()})', 0)]
    f = [x for t, _, x in read_recs(f'{d}/f.0.bin') if t == 'dump']
    bad = follow(Monitor(c['n'], c['v']), f)
    if not bad and len(f) != c['k'] + 1:
        bad = f'{len(f)} of {c["k"] + 1} fields recorded'
    return [(c, bad, len(f))]
