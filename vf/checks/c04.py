"""C04: all advection programs against each other on the command line."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G, ref as R, vtk as V, programs as P
from .c03 import mpirun

PROGS = S.ALL + ['upwindMpi', 'upwindMPI.py']
VTKS = {'upwind.cxx': 'up1.vtk', 'upwindOMPTasks.cxx': 'up1.vtk', 'upwindMpi': 'upMpi.vtk', 'upwindMPI.py': 'upMPI.vtk'}
STORED = {'cxx': 6e-6, 'F90': 6e-7, 'py': 1e-14, 'mpi': 6e-6}     # printed precision
DIGITS = {'cxx': 2e-5, 'F90': 2e-7, 'py': 1e-11, 'mpi': 2e-5}


def lang(s):
    return 'mpi' if s == 'upwindMpi' else s.rsplit('.', 1)[1]


def cases(ctx):
    rng = ctx.rng
    sizes = [(1, 3), (2, 5), (3, 7), (4, 10), (6, 1), (8, 25), (12, 4), (16, 9), (3, 150), (32, 10), (10, 6), (11, 2), (5, 33), (2, 12000), (16, 1034), (40, 2), (66, 2)]
    sizes += [(rng.randint(1, 18), rng.choice([rng.randint(1, 12), rng.randint(1, 60)])) for _ in range(ctx.pick(9, 120))]
    sizes += [(129, 1), (36, 4200)]
    if ctx.thorough:
        sizes += [(64, 3), (48, 20), (100, 2), (7, 1000)]
    res = []
    for k, (nc, ns) in enumerate(sizes):
        for s in PROGS:
            c = dict(prog=s, nc=nc, ns=ns, vtk=rng.random() < 0.85, thr=rng.choice([1, 2, 3, 4, 8]), seed=rng.randrange(1 << 30))
            if s == 'upwind.cxx' or s == 'upwindOMPTasks.cxx' or s == 'upwindAcc2.cxx' or s == 'upwindOMP5.cxx':
                c['std'] = rng.random() < 0.3
            if (nc == 129 or ns == 4200) and s in ('upwindMpi', 'upwindMPI.py', 'upwind.py'):
                continue
            if nc == 129:
                c['vtk'] = False
            if s == 'upwindMpi':
                c['N'] = rng.choice([p for p in range(1, 33 if ns < 500 else 3) if G.decomps([nc] * 3, p)])
                c['real'] = k < ctx.pick(5, 15)
            if s == 'upwindMPI.py':
                c['N'] = rng.choice([p for p in range(1, 9 if ns < 500 else 3) if G.decomps([nc] * 3, p)])
                if k >= ctx.pick(9, 40):
                    continue
            if s == 'upwindMpi' and c['real']:
                c['N'] = rng.choice([p for p in range(1, 9 if ns < 500 else 3) if G.decomps([nc] * 3, p)])
            c['order'] = rng.randrange(6)
            res.append(c)
    for s in PROGS[:-1]:     # as many steps as the program takes by itself (and says it does)
        c = dict(prog=s, nc=rng.randint(5, 12), ns=None, vtk=s in VTKS and lang(s) != 'py', thr=rng.choice([1, 2, 4]), seed=rng.randrange(1 << 30), order=0)
        if s == 'upwindMpi':
            c['real'] = False
            c['N'] = rng.choice([p for p in range(1, 33) if G.decomps([c['nc']] * 3, p)])
        res.append(c)
    return res


def args_of(c):
    if lang(c['prog']) in ('F90', 'py'):
        return [str(c['nc'])] + ([str(c['ns'])] if c['ns'] is not None else []) + (['vtk'] if c['vtk'] else [])
    groups = [['-numCells', str(c['nc'])], ['-numSteps', str(c['ns'])]]
    if c['ns'] is None:
        groups.pop()
    if c['vtk']:
        groups.append(['-vtk'])
    if c.get('std'):
        groups.append(['-std'])
    k = c['order'] % len(groups)
    groups = groups[k:] + groups[:k]
    return [x for g in groups for x in g]


def ints_after(out, word):
    m = re.search(r'(?i)' + word + r'[^\n]*', out)
    return [int(x) for x in re.findall(r'-?\d+', m.group(0))] if m else None


def check(c, d, out, model):
    s = c['prog']
    cells = ints_after(out, 'global dimensions' if s == 'upwindMpi' else 'number of cells')
    if s == 'upwindMPI.py':
        cells = [int(x) for x in re.findall(r'\d+', (re.search(r'(?m)^number of cells[^\n]*', out) or [''])[0])]
    if cells != [c['nc']] * 3:
        return f'echoes the cells as {cells}'
    if s not in ('upwindMpi', 'upwindMPI.py'):
        st = ints_after(out, 'number of time steps')
        if st != [c['ns']]:
            return f'echoes the steps as {st}'
    if s == 'upwindMpi':
        it = re.findall(r'(?m)^iter\s+(\d+)', out)
        if [int(x) for x in it] != list(range(c['ns'])):
            return f'reports {len(it)} iterations for {c["ns"]} steps'
    m = re.findall(r'(?im)^\s*check sum:\s*(\S+)', out)
    if len(m) != 1:
        return f'{len(m)} check sums are printed'
    try:
        v = float(m[0])
    except ValueError:
        return f'the check sum {m[0]!r} is not a number'
    want = float(np.sum(model.f))
    if not abs(v - want) <= max(DIGITS[lang(s)] * abs(want), 2e-9 if s.endswith('.F90') else 0):
        return f'the check sum is {m[0]} instead of {want!r}'
    if c.get('std'):
        m = re.findall(r'(?m)^std\s*:\s*(\S+)', out)
        want = float(np.std(model.f))
        if len(m) != 1 or not abs(float(m[0]) - want) <= 2e-5 * want + 1e-12:
            return f'the spread is {m} instead of {want!r}'
    if c['vtk']:
        try:
            v = V.parse(f'{d}/{VTKS.get(s, "up.vtk")}')
        except V.VtkError as e:
            return f'{VTKS.get(s, "up.vtk")}: {e}'
        f = model.f.ravel()   # the problem is symmetric in the axes
        if v.data.size != f.size:
            return f'{v.data.size} cells stored'
        tol = STORED[lang(s)] * np.abs(f) + 2 * model.e.ravel() + 1e-99
        bad = ~(np.abs(v.data - f) <= tol)
        if bad.any():
            i = int(np.argwhere(bad)[0][0])
            return f'cell {i} is stored as {v.data[i]!r}, the other programs have {f[i]!r} ({int(bad.sum())} cells differ)'
    elif [x for x in os.listdir(d) if x.endswith('.vtk')]:
        return 'a file is written that was not asked for'
    return None


def model_of(k):
    nc, ns = k
    a = R.Adv([nc] * 3, [1.0] * 3, [1.0] * 3)
    a.advect(ns, 0.1 / nc)
    return a


def run(ctx, cases):
    ctx.rule = ('a case is one program run with its own numbers of cells, steps, processes and threads; echoed sizes, check sum, spread and every stored '
                'cell are compared with the common answer (an independent model of the problem all programs state); non-trivial: at least one step')
    ctx.assumptions = ['printed precision (6 digits C++, 7 Fortran)']
    names = sorted({c['prog'] for c in cases if c['prog'] not in ('upwindMpi', 'upwindMPI.py')})
    exes = dict(zip(names, pmap(lambda n: S.build_program(ctx, n), names)))
    sim = real = None
    if any(c['prog'] == 'upwindMpi' and not c['real'] for c in cases):
        sim = P.build(ctx, ['upwindMpi'], san=False)['upwindMpi']
    if any(c['prog'] == 'upwindMpi' and c['real'] for c in cases):
        real = f'{ctx.dir("real")}/upwindMpi'
        compile_all([['mpicxx'] + CXXSTD + ['-O2', f'-I{REPO}/cxx', f'{REPO}/{P.PROGRAMS["upwindMpi"]}'] + lib_sources() + ['-o', real]])
    keys = sorted({(c['nc'], c['ns']) for c in cases if c['ns'] is not None})
    models = dict(zip(keys, [model_of(k) for k in keys]))

    def one(c):
        s = c['prog']
        d = ctx.dir('x')
        if s == 'upwindMpi' and not c['real']:
            q = run_sim(ctx, sim, args_of(c), c['N'], c['seed'], outdir=d)
            if q.viols:
                return q.viols[0] + sim_detail(q)
            out = q.out(0)
        else:
            if s == 'upwindMpi':
                cmd = mpirun(c['N']) + [real]
            elif s == 'upwindMPI.py':
                cmd = mpirun(c['N']) + [VENV_PY, f'{REPO}/upwind/python/upwindMPI.py']
            else:
                cmd = exes[s]
            r = run_cmd(cmd + args_of(c), cwd=d, env=base_env(OMP_NUM_THREADS=c['thr'], PYTHONPATH=f'{REPO}/upwind/python'), timeout=120)
            if r.rc != 0 or r.timeout:
                return f'ended abnormally ({r.brief()})'
            out = r.out
        if c['ns'] is None:
            st = [len(re.findall(r'(?m)^iter\s+\d+', out))] if s == 'upwindMpi' else ints_after(out, 'number of time steps')
            if not st or len(st) != 1 or st[0] < 1:
                return f'echoes the steps as {st}'
            c = dict(c, ns=st[0])
        bad = check(c, d, out, models.get((c['nc'], c['ns'])) or model_of((c['nc'], c['ns'])))
        shutil.rmtree(d, ignore_errors=True)
        return bad
    for c, bad in zip(cases, pmap(one, cases)):
        ctx.case(json.dumps(c, sort_keys=True), sample={k: c[k] for k in ('prog', 'nc', 'ns', 'N', 'thr') if k in c})
        ctx.count(f'runs of {c["prog"]}')
        if c['vtk']:
            ctx.count('stored cells compared', c['nc'] ** 3)
        if bad:
            ctx.fail(f'{c["prog"]} {" ".join(args_of(c))} ({c.get("N", 1)} processes, {c["thr"]} threads): {bad}', c)
