"""C22: the stencil programs apply the operators they state, and time them
truthfully: fields against a reference, reported times against the clock
readings recorded on every rank (clocks of different offset and speed)."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import gen as G, programs as P, filt as F, ref as R
from . import c06
from .c03 import mpirun

NUM = c06.NUM
APPS = 10


def cases(ctx):
    rng = ctx.rng
    res, done = [], set()
    for k in range(ctx.pick(60, 700)):
        prog = ['laplacian', 'laplacian', 'testStencil2d', 'upwindMpi'][k % 4]
        nd = rng.choice([1, 2, 2, 3, 3, 4]) if prog == 'laplacian' else {'upwindMpi': 3, 'testStencil2d': 2}[prog]
        nc = rng.choice({1: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14], 2: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12], 3: [2, 3, 4, 5, 6, 7, 8, 9, 10], 4: [2, 3, 4, 5, 6]}[nd])
        if prog == 'testStencil2d':
            nc = rng.choice(list(range(1, 26)))
        ok = [p for p in range(1, 37) if G.decomps([nc] * nd, p)]
        N = rng.choice(ok)
        args = ['-numCells', nc]
        if prog == 'laplacian':
            args += ['-numDims', nd]
        if prog == 'upwindMpi':
            args += ['-numSteps', rng.choice([1, 2, 5, 9])]
        if nd <= 3:
            args.append('-vtk')
        if (prog, tuple(args), N) in done:
            continue
        done.add((prog, tuple(args), N))
        res.append(dict(kind='sim', prog=prog, nd=nd, nc=nc, args=args, N=N, seed=rng.randrange(1 << 30)))
    for nc, N in [(101, 1), (130, 4), (258, 2)]:
        res.append(dict(kind='sim', prog='testStencil2d', nd=2, nc=nc, args=['-numCells', nc, '-vtk'], N=N, seed=rng.randrange(1 << 30)))
    # the whole output at full precision, also where no file can be written
    for k in range(ctx.pick(36, 300)):
        prog = 'upwindMpi' if k % 6 == 5 else 'laplacian'
        nd = 3 if prog == 'upwindMpi' else rng.choice([1, 2, 3, 4, 4, 5, 5, 6])
        nc = rng.choice({1: [3, 5, 8, 16, 40], 2: [2, 3, 5, 7, 8, 12], 3: [2, 3, 4, 6, 8, 10], 4: [2, 3, 4, 5, 6], 5: [2, 3, 4], 6: [2, 3, 4]}[nd])
        N = rng.choice([p for p in range(1, 37) if G.decomps([nc] * nd, p)])
        args = ['-numCells', nc] + (['-numSteps', rng.choice([1, 2, 5, 9, 30])] if prog == 'upwindMpi' else ['-numDims', nd])
        res.append(dict(kind='whole', prog=prog, nd=nd, nc=nc, args=args, N=N, seed=rng.randrange(1 << 30)))
    for nd, nc, N in [(2, 600, 1), (2, 300, 4), (1, 70000, 2), (3, 44, 1)]:
        res.append(dict(kind='whole', prog='laplacian', nd=nd, nc=nc, args=['-numCells', nc, '-numDims', nd], N=N, seed=rng.randrange(1 << 30)))
    for prog, nd, nc, N in [('laplacian', 2, 8, 4), ('upwindMpi', 3, 6, 3), ('testStencil2d', 2, 10, 5), ('pympi', 3, 8, 4), ('pympi', 3, 6, 1)]:
        args = {'laplacian': ['-numCells', nc, '-numDims', nd, '-vtk'], 'upwindMpi': ['-numCells', nc, '-numSteps', 4, '-vtk'],
                'testStencil2d': ['-numCells', nc, '-vtk'], 'pympi': [nc, 3]}[prog]
        res.append(dict(kind='real', prog=prog, nd=nd, nc=nc, args=args, N=N, seed=0))
    return res


def reference(c):
    n = [c['nc']] * c['nd']
    if c['prog'] == 'testStencil2d':
        a = np.ones(n)
        a[1:, 1:] = 0
        return np.roll(a, -1, 0) - np.roll(a, 1, 1)
    if c['prog'] == 'laplacian':
        x = (np.arange(c['nc']) + 0.5) / c['nc']
        a = np.ones(n, dtype=np.longdouble)
        for g in np.meshgrid(*[np.sin(2 * np.pi * x)] * c['nd'], indexing='ij'):
            a = a * g
        for _ in range(APPS):
            b = -2.0 * c['nd'] * a
            for j in range(c['nd']):
                b += np.roll(a, 1, j) + np.roll(a, -1, j)
            a = b
        return a.astype(float)
    return None


def times(c, out):
    m = re.search(rf'times min/max/avg:\s*{NUM}/{NUM}/{NUM}', out)
    return [float(x) for x in m.groups()] if m else None


def close(a, b):
    return abs(a - b) <= 2e-5 * abs(b) + 1e-12


def judge(c, d, out, errs, elapsed, reads, trace):
    sums, fields = c06.answer(c, d, out, errs)
    ref = reference(c)
    if ref is not None:
        noise = 1e-14 * (4 * c['nd']) ** APPS if c['prog'] == 'laplacian' else 1e-13
        for k, g in fields.items():
            r = ref if k == 'printed' else ref.ravel(order='F')
            bad = ~(np.abs(g - r) <= 2e-5 * np.abs(r) + noise)
            if bad.any():
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                return f'cell {i} ({k}) is {g[i]!r} instead of {r[i]!r} ({int(bad.sum())} cells differ)'
        if c['prog'] == 'laplacian':
            for k in ('input', 'output'):
                if not abs(sums[k] - ref.sum()) <= 2e-5 * abs(ref.sum()) + noise * ref.size:
                    return f'{k} check sum is {sums[k]!r} instead of {ref.sum()!r}'
    if c['prog'] == 'testStencil2d':
        return None
    if c['prog'] == 'pympi':
        m = re.search(rf'Wall clock time[^:]*:\s*{NUM}', out)
        if not m:
            return 'no wall clock time is printed'
        t = float(m.group(1))
        return None if 0 <= t <= elapsed else f'the reported time {t!r} s is not between 0 and the {elapsed:.2f} s the program took'
    t = times(c, out)
    if t is None:
        return 'no times are printed'
    lo, hi, avg = t
    if not (0 <= lo <= avg * (1 + 2e-5) + 1e-12 and avg <= hi * (1 + 2e-5) + 1e-12):
        return f'the reported times min/max/avg {lo!r}/{hi!r}/{avg!r} are not in order'
    if reads is None or not any(reads):     # another clock than MPI's
        return None if hi <= elapsed else f'the reported time {hi!r} s exceeds the {elapsed:.2f} s the program took'
    if any(len(r) < 2 for r in reads):
        return 'a process does not read the clock twice'
    w = [r[-1] - r[0] for r in reads]
    if all(len(r) == 2 for r in reads):
        for nm, g, e in (('smallest', lo, min(w)), ('largest', hi, max(w)), ('mean', avg, sum(w) / len(w))):
            if not close(g, e):
                return f'the reported {nm} time is {g!r} instead of {e!r}'
    elif hi > max(w) * (1 + 2e-5):
        return f'the reported time {hi!r} exceeds what the clocks read ({max(w)!r})'
    # the clock covers all applications
    state = {}
    for l in trace:
        m = re.match(r'rank (\d+) (\w+)', l)
        if m and m.group(2) == 'Wtime':
            state[m.group(1)] = state.get(m.group(1), 0) + 1
        elif m and m.group(2) in ('Get', 'Put'):
            s = state.get(m.group(1), 0)
            if s == 0 or s >= len(reads[int(m.group(1))]):
                return f'process {m.group(1)} exchanges data {"before" if s == 0 else "after"} the timed part'
    return None


def build_whole(ctx, progs):
    d = ctx.dir('whole')
    fl = sim_flags(False)
    lib = [(s, f'{d}/l{i}.o') for i, s in enumerate(lib_sources() + [f'{VERIF}/simmpi/simmpi.cc'])]
    cmds = [[CXX] + fl + ['-DFilter=VfRealFilter', '-c', s, '-o', o] for s, o in lib]
    cmds += [[CXX] + fl + ['-Dmain=prog_main', '-include', f'{VERIF}/harness/filter_whole.h', '-c', f'{REPO}/{P.PROGRAMS[p]}', '-o', f'{d}/{p}.o'] for p in progs]
    try:
        compile_all(cmds)
        compile_all([[CXX] + [o for _, o in lib] + [f'{d}/{p}.o', '-o', f'{d}/{p}', '-lpthread'] for p in progs])
    except CheckError:     # the programs use the library in another way
        return {}
    return {p: f'{d}/{p}' for p in progs}


def judge_whole(c, errs):
    rows = []
    for t in errs:
        m = re.search(r'(?s)\[vf final\]\n(.*?)\[vf end\]', t)
        if not m:
            return None     # no filter, or one that never goes away
        rows.append(np.array([[float(x) for x in i.split()] + [float(v)] for i, v in re.findall(r'inds =([\d ]+?)\s*outData =\s*(\S+)', m.group(1))]).ravel())
    # (the values alone do not tell where they are below the rounding noise)
    want = int(c['args'][-1]) if c['prog'] == 'upwindMpi' else APPS
    for k, t in enumerate(errs):
        m = re.search(r'\[vf applied (\d+)\]', t)
        if m and int(m.group(1)) not in (0, want):
            return f'process {k} applies the operator {m.group(1)} times instead of {want}'
    n = [c['nc']] * c['nd']
    g, bad = F.assemble(n, rows)
    if bad:
        return bad
    if c['prog'] == 'laplacian':
        r, tol = reference(c), 1e-14 * (4 * c['nd']) ** APPS
    else:
        a = R.Adv(n, [1.0] * 3, [1.0] * 3)
        a.advect(c['args'][-1], 0.1 / c['nc'])
        r, tol = a.f, 2e-13
    bad = ~(np.abs(g - r) <= 1e-12 * np.abs(r) + tol)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return f'cell {i} ends as {g[i]!r} instead of {r[i]!r} ({int(bad.sum())} cells differ)'
    return ''


def run(ctx, cases):
    sim = sorted({c['prog'] for c in cases if c['kind'] == 'sim'})
    exes = P.build(ctx, sim, san=False) if sim else {}
    whole = sorted({c['prog'] for c in cases if c['kind'] == 'whole'})
    whole = build_whole(ctx, whole) if whole else {}
    d = ctx.dir('real')
    rexe = {p: f'{d}/{p}' for p in sorted({c['prog'] for c in cases if c['kind'] == 'real'} - {'pympi'})}
    compile_all([['mpicxx'] + CXXSTD + ['-O2', f'-I{REPO}/cxx', f'{REPO}/{P.PROGRAMS[p]}'] + lib_sources() + ['-o', rexe[p]] for p in rexe])
    ctx.rule = ('a case is one run of a program (options, process count): every cell stored or printed against the reference operator, the reported times against the recorded clock readings; '
                'non-trivial: more than one cell')
    ctx.assumptions = ['printed precision 6 digits; for the Laplacian rounding noise grows by up to 4*dims per application',
                       'clocks of different processes may differ in offset and speed (MPI_WTIME_IS_GLOBAL is not set)']

    def one(c):
        reads = trace = None
        if c['kind'] == 'whole':
            if c['prog'] not in whole:
                return None
            d = ctx.dir('wh')
            s = run_sim(ctx, whole[c['prog']], c['args'], c['N'], c['seed'], outdir=d)
            if s.viols:
                return s.viols[0] + sim_detail(s)
            e = judge_whole(c, [s.err(k) for k in range(c['N'])])
            if e == '':
                ctx.count('whole outputs')
            shutil.rmtree(d, ignore_errors=True)
            return e
        if c['kind'] == 'sim':
            d = ctx.dir('sim')
            s = run_sim(ctx, exes[c['prog']], c['args'], c['N'], c['seed'], outdir=d, keep_trace=True, env={'SIMMPI_CLOCK': d})
            if s.viols:
                return s.viols[0] + sim_detail(s)
            out, errs, el = s.out(0), [s.err(k) for k in range(c['N'])], s.res.wall
            trace = open(f'{d}/trace.txt').read().splitlines()
            reads = []
            for k in range(c['N']):
                p = f'{d}/wtime.{k}'
                reads.append([float(x) for x in open(p)] if os.path.exists(p) else [])
        else:
            d = ctx.dir('rr')
            cmd = [VENV_PY, f'{REPO}/upwind/python/upwindMPI.py'] if c['prog'] == 'pympi' else [rexe[c['prog']]]
            r = run_cmd(mpirun(c['N']) + cmd + [str(a) for a in c['args']], cwd=d, env=base_env(PYTHONPATH=f'{REPO}/upwind/python'), timeout=120)
            if r.rc != 0 or r.timeout:
                return f'ended abnormally ({r.brief()})'
            out, errs, el = r.out, [r.err], r.wall
        try:
            e = judge(c, d, out, errs, el, reads, trace)
        except ValueError as x:
            e = str(x)
        if reads:
            ctx.count('clock readings', sum(map(len, reads)))
            ctx.count('trace events', len(trace))
        shutil.rmtree(d, ignore_errors=True)
        return e
    for c, e in zip(cases, pmap(one, cases)):
        ctx.case((c['kind'], c['prog'], c['args'], c['N']), nontrivial=c['nc'] > 1, sample={k: c[k] for k in ('prog', 'args', 'N')})
        ctx.count(f'{c["kind"]} {c["prog"]}')
        if e:
            ctx.fail(f'{c["prog"]} {" ".join(map(str, c["args"]))} on {c["N"]} processes ({c["kind"]}): {e}', c)
