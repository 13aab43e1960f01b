"""C06: the distributed programs give the one-process answer on every process count."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import gen as G, programs as P, vtk as V, filt as F
from .c03 import mpirun

NUM = r'([-+0-9.eE]+|[-+]?nan|[-+]?inf)'


def cases(ctx):
    rng = ctx.rng
    res = []

    def counts(nc, nd, k, cap=64):
        ok = [p for p in range(2, cap + 1) if G.decomps([nc] * nd, p)]
        rng.shuffle(ok)
        return ok[:k]
    done = set()
    for k in range(ctx.pick(46, 500)):
        prog = ['laplacian', 'upwindMpi', 'testStencil2d'][k % 3] if k < 30 else rng.choice(['laplacian', 'upwindMpi'])
        nd = rng.choice([1, 2, 2, 3, 3, 4]) if prog == 'laplacian' else {'upwindMpi': 3, 'testStencil2d': 2}[prog]
        nc = rng.choice({1: [2, 3, 5, 8, 12, 16, 24, 48, 60], 2: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 24],
                         3: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12], 4: [2, 3, 4, 5, 6]}[nd])
        steps = rng.choice([1, 2, 3, 5, 10, 17])
        key = (prog, nd, nc, steps if prog == 'upwindMpi' else 0)
        if key in done:
            continue
        done.add(key)
        args = ['-numCells', nc]
        if prog == 'laplacian':
            args += ['-numDims', nd]
        if prog == 'upwindMpi':
            args += ['-numSteps', steps]
        if nd <= 3:
            args.append('-vtk')
        Ns = counts(nc, nd, ctx.pick(4, 10))
        if Ns or nc == 1:
            res.append(dict(kind='sim', prog=prog, nd=nd, nc=nc, args=args, Ns=[1] + Ns, seed=rng.randrange(1 << 30)))
    # many steps, many processes
    for prog, nd, nc, Ns, extra in [('upwindMpi', 3, 2, [1, 2, 4], ['-numSteps', 700]), ('upwindMpi', 3, 3, [1, 3], ['-numSteps', 1100]),
                                    ('laplacian', 2, 24, [1, rng.choice([72, 96, 144])], ['-numDims', 2]), ('upwindMpi', 3, 6, [1, rng.choice([72, 108])], ['-numSteps', 4])]:
        res.append(dict(kind='sim', prog=prog, nd=nd, nc=nc, args=['-numCells', nc] + extra + ['-vtk'], Ns=Ns, seed=rng.randrange(1 << 30)))
    real = [('laplacian', 2, 12), ('upwindMpi', 3, 6), ('testStencil2d', 2, 12), ('pympi', 3, 6), ('pympi', 3, 12), ('pympi', 3, 18)]
    if ctx.thorough:
        real += [('laplacian', 3, 8), ('laplacian', 1, 30), ('upwindMpi', 3, 8), ('pympi', 3, 8), ('pympi', 3, 10), ('pympi', 3, 5), ('laplacian', 4, 4)]
    for prog, nd, nc in real:
        many = nc == 18     # many processes
        nc, st = (6, 20) if many else (nc, rng.choice([3, 7, 11]))
        args = {'laplacian': ['-numCells', nc, '-numDims', nd] + (['-vtk'] if nd < 4 else []), 'upwindMpi': ['-numCells', nc, '-numSteps', st, '-vtk'],
                'testStencil2d': ['-numCells', nc, '-vtk'], 'pympi': [nc, st, 'vtk']}[prog]
        Ns = [1, rng.choice([24, 27])] if many else [1] + rng.sample([p for p in range(2, 9) if G.decomps([nc] * nd, p)], ctx.pick(2, 3) if nc != 5 else 1)
        res.append(dict(kind='real', prog=prog, nd=nd, nc=nc, args=args, Ns=Ns, seed=0))
    return res


VTKNAME = {'laplacian': 'laplacian.vtk', 'upwindMpi': 'upMpi.vtk', 'testStencil2d': 'stencil2d.vtk', 'pympi': 'upMPI.vtk'}


def answer(c, d, out, errs):
    """(dict of sums, fields) a run reports; raises ValueError if incomplete"""
    res = {}
    for m in re.finditer(rf'iter\s+(\d+)\s+check sum\s+in/out = {NUM} / {NUM}', out):
        res[f'iter {m.group(1)} in'] = float(m.group(2))
        res[f'iter {m.group(1)} out'] = float(m.group(3))
    m = re.search(rf'Check sums: input = {NUM} output = {NUM}', out)
    if m:
        res['input'], res['output'] = float(m.group(1)), float(m.group(2))
    m = re.search(rf'(?m)^\s*[Cc]heck sum:\s*{NUM}', out)
    if m:
        res['sum'] = float(m.group(1))
    if c['prog'] != 'testStencil2d' and 'sum' not in res and 'input' not in res:
        raise ValueError('no check sum is printed')
    fields = {}
    # (mpirun may cut the lines printed by different processes into each other)
    if c['prog'] == 'testStencil2d' and c['kind'] == 'sim':
        rows = re.findall(r'inds =\s*(\d+)\s+(\d+)\s+outData =\s*(\S+)', '\n'.join(errs))
        a = np.array([[float(x) for x in r] for r in rows]) if rows else np.zeros((0, 3))
        g, bad = F.assemble([c['nc']] * 2, [a.ravel()])
        if bad:
            raise ValueError('printed output: ' + bad)
        fields['printed'] = g
    if any(a in ('-vtk', 'vtk') for a in c['args']):
        try:
            v = V.parse(f'{d}/{VTKNAME[c["prog"]]}')
        except V.VtkError as e:
            raise ValueError(f'{VTKNAME[c["prog"]]}: {e}')
        fields['vtk'] = v.data
        if v.data.size != c['nc'] ** c['nd']:
            raise ValueError(f'{v.data.size} values stored')
    return res, fields


def compare(c, ref, got):
    (s0, f0), (s1, f1) = ref, got
    noise = 1e-14 * (4 * c['nd']) ** 10 if c['prog'] == 'laplacian' else 1e-13
    for k in s0:
        if k not in s1:
            return f'no "{k}" check sum'
        tol = 2e-5 * abs(s0[k]) + noise * c['nc'] ** c['nd']
        if not abs(s0[k] - s1[k]) <= tol:
            return f'check sum "{k}" is {s1[k]!r} instead of {s0[k]!r}'
    for k in f0:
        a, b = f0[k], f1[k]
        tol = 2e-5 * np.abs(a) + (max(noise, 1e-9 * np.abs(a).max()) if c['prog'] == 'laplacian' else noise)
        bad = ~(np.abs(a - b) <= tol)
        if bad.any():
            i = int(np.argwhere(bad.ravel())[0][0])
            return f'cell {i} ({k}) is {b.ravel()[i]!r} instead of {a.ravel()[i]!r} ({int(bad.sum())} cells differ)'
    return None


def run(ctx, cases):
    sim = sorted({c['prog'] for c in cases if c['kind'] == 'sim'})
    exes = P.build(ctx, sim, san=False) if sim else {}
    rexe = {}
    d = ctx.dir('real')
    jobs = []
    for p in sorted({c['prog'] for c in cases if c['kind'] == 'real'} - {'pympi'}):
        jobs.append(['mpicxx'] + CXXSTD + ['-O2', f'-I{REPO}/cxx', f'{REPO}/{P.PROGRAMS[p]}'] + lib_sources() + ['-o', f'{d}/{p}'])
        rexe[p] = f'{d}/{p}'
    compile_all(jobs)
    ctx.rule = ('a case is one program, option set and process count: check sums and all stored or printed cells are compared with the one-process run; '
                'non-trivial: more than one process')
    ctx.assumptions = ['printed precision 6 digits; for the Laplacian rounding noise grows by up to 4*dims per application']

    def one(t):
        c, N = t
        if c['kind'] == 'sim':
            s = run_sim(ctx, exes[c['prog']], c['args'], N, c['seed'] + N)
            if s.viols:
                return None, s.viols[0] + sim_detail(s)
            d, out, errs = s.dir, s.out(0), [s.err(k) for k in range(N)]
        else:
            d = ctx.dir('rr')
            cmd = [VENV_PY, f'{REPO}/upwind/python/upwindMPI.py'] if c['prog'] == 'pympi' else [rexe[c['prog']]]
            r = run_cmd(mpirun(N) + cmd + [str(a) for a in c['args']], cwd=d, env=base_env(PYTHONPATH=f'{REPO}/upwind/python'), timeout=120)
            if r.rc != 0 or r.timeout:
                return None, f'ended abnormally ({r.brief()})'
            out, errs = r.out, [r.err]
        try:
            a = answer(c, d, out, errs)
        except ValueError as e:
            return None, str(e)
        shutil.rmtree(d, ignore_errors=True)
        return a, None
    flat = [(c, N) for c in cases for N in c['Ns']]
    ref = {}
    for (c, N), (a, bad) in zip(flat, pmap(one, flat)):
        k = id(c)
        if bad is None:
            if N == c['Ns'][0]:
                ref[k] = a
            elif k in ref:
                bad = compare(c, ref[k], a)
            ctx.count('sums', len(a[0]))
            ctx.count('cells', sum(f.size for f in a[1].values()))
        ctx.case((c['kind'], c['prog'], c['args'], N), nontrivial=N > 1, sample={'prog': c['prog'], 'args': c['args'], 'N': N})
        ctx.count(f'{c["kind"]} {c["prog"]}')
        if bad:
            ctx.fail(f'{c["prog"]} {" ".join(map(str, c["args"]))} on {N} processes ({c["kind"]}): {bad}', c)
