"""C12: VTK files describe the grid and hold the field faithfully."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G, ref as R, vtk as V, filt as F, programs as P
from .c03 import mpirun

REL = {'cxx': 6e-6, 'F90': 6e-7, 'py': 1e-14}


def shape(rng, nd, limit):
    return G.extents(rng, nd, limit, big=0.1)


def value(rng):
    r = rng.random()
    return 0.0 if r < 0.1 else rng.choice([1.0, -1.0]) if r < 0.2 else rng.uniform(-1, 1) * 10 ** rng.randint(-280, 280) if r < 0.5 else rng.uniform(-10, 10)


def fname(rng, base):
    return rng.choice([base + '.vtk'] * 6 + [base, base + 'long' * 16 + '.vtk', 'a.b_' + base + '.dat', base + '.VTK'])


def cases(ctx):
    rng = ctx.rng
    res = []
    for s in S.ALL:
        for k in range(ctx.pick(45, 600)):
            nd = 3 if not S.dims_ok(s, 2) else rng.choice([1, 2, 3, 3])
            n = shape(rng, nd, 2500)
            v, L = G.velocity(rng, nd), G.lengths(rng, nd)
            if k % 9 == 5:      # a very small or very large domain
                x = 10.0 ** rng.randint(-200, 200)
                L = [y * x for y in L]
            ops, m = [], rng.randint(1, 3)
            for q in range(m):
                if k % 4 == 3:     # strong decay: very small and very large values
                    ops.append(['adv', rng.randint(20, 150), G.timestep(rng, n, v, L, 'any')])
                elif q or rng.random() < 0.8:
                    ops.append(['adv', rng.randint(1, 12), G.timestep(rng, n, v, L, 'any')])
                ops += [['dump'], ['vtk', fname(rng, f'v{len(res)}_{q}')]]
            if m > 1 and rng.random() < 0.4:     # one file is written over again
                ops = [o if o[0] != 'vtk' else ['vtk', f'v{len(res)}.vtk'] for o in ops]
            res.append(dict(kind='solver', solver=s, n=n, v=v, L=L, ops=ops, thr=rng.choice([1, 2, 4])))
    for s in S.ALL:      # counts of six and seven digits
        n = rng.sample([110003, 2, 5], 3)
        res.append(dict(kind='solver', solver=s, n=n, v=[1.0, -1.0, 1.0], L=[1.0, 2.0, 3.0], ops=[['adv', 1, 1e-6], ['dump'], ['vtk', f'v{len(res)}_0.vtk']], thr=4))
    for _ in range(ctx.pick(150, 2500)):
        nd = rng.choice([1, 2, 3, 3])
        n = shape(rng, nd, 1500)
        lo, hi = F.corners(rng, nd)
        if rng.random() < 0.1:
            x = 10.0 ** rng.randint(-200, 200)
            lo, hi = [y * x for y in lo], [y * x for y in hi]
        res.append(dict(kind='write', n=n, lo=lo, hi=hi, name=rng.choice(['f', 'outData', 'x_1']), seed=rng.randrange(1 << 30)))
    for _ in range(ctx.pick(60, 600)):
        nd = rng.choice([1, 2, 3, 3])
        n = shape(rng, nd, 1500)
        res.append(dict(kind='rect', n=n, L=G.lengths(rng, nd), seed=rng.randrange(1 << 30)))
    for k in range(ctx.pick(130, 1500)):
        N = F.pick_n(rng, k, 0.02)
        nd = rng.choice([1, 2, 2, 3, 3])
        p = F.problem(rng, N, nd, cells=1500)
        if rng.random() < 0.25:      # very large or very small values
            x = 10.0 ** rng.randint(-250, 250)
            p['st'] = [[o, w * x] for o, w in p['st']]
        ops = [F.new_op(0, p)]
        for q in range(rng.randint(1, 3)):
            ops += [F.idx_op(rng, 0, nd) if rng.random() < 0.6 else F.pos_op(rng, 0, nd), ['apply', 0], ['out', 0], ['vtk', 0, fname(rng, f'w{rng.choice([0, q])}_{q}')]]
            if rng.random() < 0.3:
                ops += [['copy', 0], ['apply', 0], ['out', 0], ['vtk', 0, f'z_{q}.vtk']]
        res.append(dict(kind='filter', N=N, seed=rng.randrange(1 << 30), p=p, ops=ops))
    for n, N in [x for x in F.LARGE if len(x[0]) <= 3][:ctx.pick(7, 99)]:
        res.append(dict(kind='filter', N=N, seed=rng.randrange(1 << 30), p=(p := F.large(rng, n, N)),
                        ops=[F.new_op(0, p), F.idx_op(rng, 0, len(n)), ['apply', 0], ['out', 0], ['vtk', 0, 'large.vtk']]))
    for _ in range(ctx.pick(24, 200)):
        prog = rng.choice(['laplacian', 'laplacian', 'testStencil2d', 'upwindMpi', 'upwindMpi'])
        nd = rng.choice([1, 2, 3]) if prog == 'laplacian' else 2 if prog == 'testStencil2d' else 3
        nc = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12])
        if prog == 'testStencil2d':
            nc = rng.choice([2, 4, 6, 8, 9, 10, 12])
        N = rng.choice([q for q in range(1, 28) if G.decomps([nc] * nd, q)])
        a = {'laplacian': ['-numCells', nc, '-numDims', nd, '-vtk'], 'testStencil2d': ['-numCells', nc, '-vtk'], 'upwindMpi': ['-numCells', nc, '-numSteps', rng.randint(1, 6), '-vtk']}[prog]
        res.append(dict(kind='mpi', old=rng.random() < 0.5, prog=prog, nc=nc, nd=nd, N=N, args=[str(x) for x in a], seed=rng.randrange(1 << 30)))
    for s in S.ALL + ['upwindMPI.py']:
        for _ in range(ctx.pick(4, 25)):
            nc, ns = rng.randint(1, 14), rng.choice([1, 2, 5, 12, 40])
            c = dict(kind='cli', old=rng.random() < 0.5, prog=s, nc=nc, ns=ns, thr=rng.choice([1, 2, 4]))
            if s == 'upwindMPI.py':
                c['N'] = rng.choice([q for q in range(1, 9) if G.decomps([nc] * 3, q)])
            res.append(c)
    return res


def rand_field(n, seed):
    rng = random.Random(seed)
    return [value(rng) for _ in range(int(np.prod(n)))]


def run(ctx, cases):
    ctx.rule = ('a case is one program run or one object writing one or more files; every file is parsed by a strict reader (counts, separators, trailing data) and its coordinates '
                'and cell values compared with the grid and the field recorded at that moment')
    ctx.assumptions = ['fields with infinite or undefined values are not judged', 'grids of one to three axes (the format has no more)']
    kinds = {c['kind'] for c in cases}
    names = sorted({c['solver'] for c in cases if c['kind'] == 'solver'})
    exes = S.build_many(ctx, names)
    pn = sorted({c['prog'] for c in cases if c['kind'] == 'cli' and c['prog'] != 'upwindMPI.py'})
    progs = dict(zip(pn, pmap(lambda n: S.build_program(ctx, n), pn)))
    sim = P.build(ctx, sorted({c['prog'] for c in cases if c['kind'] == 'mpi'}), san=False, filt='filter' in kinds)
    writer = None
    if 'write' in kinds:
        b = Builder(ctx)
        fl = CXXSTD + ['-O1', f'-I{REPO}/cxx', '-D_GLIBCXX_ASSERTIONS'] + SAN
        writer = b.link('vtkh', [b.obj(s, fl) for s in lib_sources(mpi=False)] + [b.obj(f'{VERIF}/harness/vtk_harness.cc', fl)], SAN)
        b.go()

    def check(path, fn):
        try:
            v = V.parse(path)
        except V.VtkError as e:
            return str(e)
        ctx.count('files parsed')
        ctx.count('cell values compared', v.data.size)
        return fn(v)

    jobs = [(s, ch) for s in names for ch in S.chunks([c for c in cases if c.get('solver') == s], 2)]

    def solver(job):
        s, ch = job
        recs, failure, d = S.run_cases(ctx, exes[s], list(enumerate(ch)), timeout=240)
        res = []
        for i, c in enumerate(ch):
            bad = None
            if failure and failure[0] == i:
                bad = f'ended abnormally ({failure[1].brief()})'
            elif i in recs:
                fs = [x for t, x in recs[i] if t == 'dump']
                k, last = 0, {}
                for o in c['ops']:
                    if o[0] == 'dump':
                        cur = fs[k] if k < len(fs) else None
                        k += 1
                    elif o[0] == 'vtk':
                        last[o[1]] = cur
                for fn, f in last.items():
                    if f is None:
                        bad = 'records are missing'
                    elif np.isfinite(f).all() and np.abs(f).max() < 1e300:
                        bad = bad or check(f'{d}/{fn}', lambda v: V.check_rect(v, c['n'], c['L'], f, REL[s.rsplit('.', 1)[1]]))
            res.append((c, bad))
        if failure and failure[0] is None:
            res.append((ch[0], f'ended abnormally ({failure[1].brief()})'))
        shutil.rmtree(d, ignore_errors=True)
        return res
    for res in pmap(solver, jobs):
        for c, bad in res:
            ctx.case((c['solver'], json.dumps(c)), nontrivial=len(c['n']) > 1, sample={'solver': c['solver'], 'n': c['n'], 'L': c['L']})
            ctx.count('solver runs')
            if bad:
                ctx.fail(f'{c["solver"]}: {bad} (n={c["n"]} L={c["L"]})', c)

    def batch(sub):
        d = ctx.dir('w')
        res = []
        if sub[0]['kind'] == 'write':
            with open(f'{d}/cases.txt', 'w') as f:
                for i, c in enumerate(sub):
                    x = [f'{d}/{i}.vtk', len(c['n'])] + c['n'] + c['lo'] + c['hi'] + [c['name']] + rand_field(c['n'], c['seed'])
                    f.write(' '.join(F.tok(q) for q in x) + '\n')
            r = run_cmd([writer, f'{d}/cases.txt'], cwd=d, timeout=200)
        else:
            with open(f'{d}/cases.txt', 'w') as f:
                x = []
                for i, c in enumerate(sub):
                    n, L, nd = c['n'], c['L'], len(c['n'])
                    ax = [[L[j] / n[j] * k for k in range(n[j] + 1)] for j in range(nd)]
                    axes = ([ax[2], ax[1], ax[0]] if nd == 3 else [[0.0], ax[1], ax[0]] if nd == 2 else [[0.0], [0.0], ax[0]])
                    x.append([f'{d}/{i}.vtk'] + axes + [n, rand_field(n, c['seed'])])
                json.dump(x, f)
            r = run_cmd([VENV_PY, f'{VERIF}/harness/pyvtk_driver.py', f'{d}/cases.txt'], cwd=d, env=base_env(VF_PYDIR=f'{REPO}/upwind/python'), timeout=200)
        for i, c in enumerate(sub):
            fld = rand_field(c['n'], c['seed'])
            if c['kind'] == 'write':     # the field is given in the file's order
                f = np.array(fld).reshape(c['n'], order='F')
                bad = check(f'{d}/{i}.vtk', lambda v: V.check_struct(v, c['n'], c['lo'], c['hi'], f) or (f'the field is named {v.name}' if v.name != c['name'] else None))
            else:
                bad = check(f'{d}/{i}.vtk', lambda v: V.check_rect(v, c['n'], c['L'], fld, REL['py']))
            if bad and r.rc != 0:
                bad += f' ({r.brief()})'
            res.append((c, bad))
        shutil.rmtree(d, ignore_errors=True)
        return res
    subs = [ch for k in ('write', 'rect') for ch in S.chunks([c for c in cases if c['kind'] == k], 4) if ch]
    for res in pmap(batch, subs):
        for c, bad in res:
            ctx.case((c['kind'], json.dumps(c)), nontrivial=len(c['n']) > 1)
            ctx.count('direct writes')
            if bad:
                ctx.fail(f'{"writeVTK" if c["kind"] == "write" else "saveVTK.py"}: {bad} (n={c["n"]})', c)

    def other(c):
        d = ctx.dir('o')
        try:
            if c['kind'] == 'filter':
                return filt(c, d)
            for fn in ({'laplacian': ['laplacian.vtk'], 'upwindMpi': ['upMpi.vtk'], 'testStencil2d': ['stencil2d.vtk'], 'upwind.cxx': ['up0.vtk', 'up1.vtk'],
                        'upwindOMPTasks.cxx': ['up0.vtk', 'up1.vtk'], 'upwindMPI.py': ['upMPI.vtk']}.get(c['prog'], ['up.vtk']) if c.get('old') else []):
                with open(f'{d}/{fn}', 'w') as f:      # left by an earlier run
                    f.write('0.25 0.5\n' * 40000)
            if c['kind'] == 'mpi':
                return mpi(c, d)
            return cli(c, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def filt(c, d):
        p = c['p']
        s = F.run_ops(ctx, sim['filter'], c['ops'], c['N'], c['seed'])
        if s.viols:
            return s.viols[0] + sim_detail(s)
        i, last, bad = 0, {}, None
        for o in c['ops']:
            if o[0] == 'out':
                cur, bad = F.assemble(p['n'], [r and r[2] for r in F.at(s, i)])
                if bad:
                    break
            elif o[0] == 'vtk':
                last[o[2]] = cur
            if o[0] in F.RECORDS:
                i += 1
        for fn, f in last.items():
            if np.isfinite(f).all():
                bad = bad or check(f'{s.dir}/{fn}', lambda v: V.check_struct(v, p['n'], p['lo'], p['hi'], f))
        shutil.rmtree(s.dir, ignore_errors=True)
        return bad

    def mpi(c, d):
        s = run_sim(ctx, sim[c['prog']], c['args'], c['N'], c['seed'], outdir=d)
        if s.viols:
            return s.viols[0] + sim_detail(s)
        fn = {'laplacian': 'laplacian.vtk', 'upwindMpi': 'upMpi.vtk', 'testStencil2d': 'stencil2d.vtk'}[c['prog']]
        n = [c['nc']] * c['nd']
        out = s.out(0)
        m = re.search(r'(?i)check sum\w*:.*?output = (\S+)', out) if c['prog'] == 'laplacian' else re.search(r'(?im)^\s*check sum:\s*(\S+)', out)

        def same(v):
            # coordinates, and the stored field against the program's own sum of it
            bad = V.check_struct(v, n, [0.0] * c['nd'], [1.0] * c['nd'], v.data.reshape(n, order='F'))
            if bad or c['prog'] == 'testStencil2d':
                return bad
            if not m:
                return 'no check sum is printed'
            if not abs(v.data.sum() - float(m.group(1))) <= 1e-5 * np.abs(v.data).sum() + 1e-12:
                return f'the stored field adds up to {v.data.sum()!r}, the program reports {m.group(1)}'
            if c['prog'] == 'upwindMpi':
                a = R.Adv([c['nc']] * 3, [1.0] * 3, [1.0] * 3)
                a.advect(int(c['args'][3]), 0.1 / c['nc'])
                return V.check_struct(v, n, [0.0] * 3, [1.0] * 3, a.f, 1e-5)
        return check(f'{d}/{fn}', same)

    def cli(c, d):
        s = c['prog']
        a = [c['nc'], c['ns'], 'vtk'] if s.endswith(('.F90', '.py')) else ['-numCells', c['nc'], '-numSteps', c['ns'], '-vtk']
        cmd = mpirun(c['N']) + [VENV_PY, f'{REPO}/upwind/python/upwindMPI.py'] if s == 'upwindMPI.py' else progs[s]
        r = run_cmd(cmd + [str(x) for x in a], cwd=d, env=base_env(OMP_NUM_THREADS=c['thr'], PYTHONPATH=f'{REPO}/upwind/python'), timeout=120)
        if r.rc != 0 or r.timeout:
            return f'ended abnormally ({r.brief()})'
        fs = sorted(x for x in os.listdir(d) if x.endswith('.vtk'))
        two = s in ('upwind.cxx', 'upwindOMPTasks.cxx')
        want = ['up0.vtk', 'up1.vtk'] if two else ['upMPI.vtk'] if s == 'upwindMPI.py' else ['up.vtk']
        if fs != want:
            return f'the files {fs} are written'
        n = [c['nc']] * 3
        m = R.Adv(n, [1.0] * 3, [1.0] * 3)
        rel = 2 * REL[s.rsplit('.', 1)[1]]
        if two:
            bad = check(f'{d}/up0.vtk', lambda v: V.check_rect(v, n, [1.0] * 3, m.f, rel))
            if bad:
                return 'up0.vtk: ' + bad
        m.advect(c['ns'], 0.1 / c['nc'])

        def last(v):
            f = m.f.ravel()
            return V.check_rect(v, n, [1.0] * 3, v.data, rel) or (None if (np.abs(v.data - f) <= rel * np.abs(f) + 2 * m.e.ravel() + 1e-99).all() else 'the stored field is not the computed one')
        return check(f'{d}/{want[-1]}', last)

    rest = [c for c in cases if c['kind'] in ('filter', 'mpi', 'cli')]
    for c, bad in zip(rest, pmap(other, rest)):
        ctx.case(json.dumps(c, sort_keys=True), sample={k: c[k] for k in ('kind', 'prog', 'N', 'nc') if k in c})
        ctx.count(f'{c["kind"]} runs')
        if bad:
            ctx.fail(f'{c.get("prog", "Filter")}: {bad} ' + ' '.join(f'{k}={c[k]}' for k in ('N', 'nc', 'ns', 'args') if k in c) + (f' n={c["p"]["n"]}' if 'p' in c else ''), c)
