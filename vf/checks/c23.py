"""C23: the programs report truthfully what they ran with: threads against the
teams observed at the OpenMP runtime, decompositions against the boxes the
processes hold, announced files against the files written."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G, programs as P, filt as F
from .c03 import mpirun
from .c22 import build_whole

BANNER = ['upwind.cxx', 'upwindOMPTasks.cxx', 'upwind.F90', 'upwindF03.F90']     # print their threads


def cases(ctx):
    rng = ctx.rng
    res = []
    for s in S.ALL:
        for k in range(ctx.pick(10 if s in BANNER else 3, 80)):
            c = dict(kind='prog', prog=s, nc=rng.choice([1, 2, 3, 5, 8, 12]), ns=rng.choice([1, 2, 7]), vtk=rng.random() < 0.5,
                     thr=rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 33]), limit=0, wait=rng.choice(['static', 'dynamic']))
            if k % 4 == 3:       # fewer threads than asked for
                c['thr'] = rng.choice([4, 6, 9, 16])
                c['limit'] = rng.randint(1, c['thr'] - 1)
            res.append(c)
    for k in range(ctx.pick(50, 600)):
        N = F.pick_n(rng, k)
        ops, ps = [], []
        for j in range(rng.choice([1, 1, 2, 3])):
            p = F.problem(rng, N, cells=2500)
            ps.append(p)
            ops += [F.new_op(j, p), F.idx_op(rng, j, len(p['n']))]
        js = list(range(len(ps)))
        rng.shuffle(js)
        for j in js:
            ops += [['apply', j], ['out', j]]
        res.append(dict(kind='filter', N=N, ps=ps, ops=ops, seed=rng.randrange(1 << 30)))
    for k in range(ctx.pick(48, 500)):
        prog = ['laplacian', 'upwindMpi', 'testStencil2d', 'laplacian'][k % 4]
        nd = rng.choice([1, 2, 2, 3, 4, 5]) if prog == 'laplacian' else {'upwindMpi': 3, 'testStencil2d': 2}[prog]
        nc = rng.choice({1: [1, 5, 12, 60], 2: [1, 2, 6, 9, 12, 30], 3: [1, 2, 4, 6, 9], 4: [2, 4, 6], 5: [2, 3]}[nd])
        N = rng.choice([p for p in range(1, 65) if G.decomps([nc] * nd, p)])
        args = ['-numCells', nc] + (['-numDims', nd] if prog == 'laplacian' else ['-numSteps', rng.choice([1, 2, 9, 40])] if prog == 'upwindMpi' else [])
        if nd <= 3 and rng.random() < 0.6:
            args.append('-vtk')
        res.append(dict(kind='dist', prog=prog, nd=nd, nc=nc, N=N, args=args, seed=rng.randrange(1 << 30)))
    # no decomposition: nothing runs, so nothing is reported and no file announced
    for k in range(ctx.pick(9, 60)):
        prog = ['laplacian', 'upwindMpi', 'testStencil2d'][k % 3]
        nd = rng.choice([1, 2, 3]) if prog == 'laplacian' else {'upwindMpi': 3, 'testStencil2d': 2}[prog]
        nc = rng.choice([1, 2, 4, 6, 9, 25])
        N = rng.choice([p for p in (5, 7, 8, 11, 13, 16, 22) if not G.decomps([nc] * nd, p)])
        args = ['-numCells', nc] + (['-numDims', nd] if prog == 'laplacian' else ['-numSteps', 2] if prog == 'upwindMpi' else []) + ['-vtk'] * (k % 4 != 3)
        res.append(dict(kind='none', prog=prog, nd=nd, nc=nc, N=N, args=args, seed=rng.randrange(1 << 30)))
    # more steps than 16 bits count
    res.append(dict(kind='long', prog='upwindMpi', nc=1, N=1, ns=66003 + rng.randrange(3000)))
    res.append(dict(kind='dist', prog='upwindMpi', nd=3, nc=2, N=2, args=['-numCells', 2, '-numSteps', 700], seed=rng.randrange(1 << 30)))
    for nc, N in [(4, 4), (6, 6), (9, 3), (5, 1), (8, 8)][:ctx.pick(3, 5)]:
        res.append(dict(kind='pympi', nc=nc, N=N, ns=rng.randint(1, 4), vtk=nc != 6))
    return res


def ints(l):
    return [int(x) for x in re.findall(r'-?\d+', l)]


def configs(out):
    """(processes, cells, sub-domains) as printed, in order."""
    res = [[], [], []]
    for l in out.splitlines():
        for k, w in enumerate(('number of procs', 'global dimensions', 'domain decomp')):
            m = re.search(rf'(?i){w}[a-z]*\s*:?(.*)', l)
            if m:
                res[k].append(ints(m.group(1)))
    return res


def judge_config(outs, N, grids, boxes):
    """grids: extents of each distributed object in order of creation;
    boxes: extents of each process's box, per object (None if unknown)"""
    for k, o in enumerate(outs[1:]):
        if any(configs(o)):
            return f'process {k + 1} prints the configuration as well'
    n, g, d = configs(outs[0])
    if not len(n) == len(g) == len(d) == len(grids):
        return f'{len(n)} process counts, {len(g)} grids and {len(d)} decompositions are printed for {len(grids)} objects'
    for q, grid in enumerate(grids):
        if n[q] != [N]:
            return f'the number of processes is printed as {n[q]} instead of {N}'
        if g[q] != grid:
            return f'the cells per axis are printed as {g[q]} instead of {grid}'
        if len(d[q]) != len(grid) or min(d[q]) < 1:
            return f'the decomposition is printed as {d[q]} for {len(grid)} axes'
        for k, b in enumerate(boxes[q] or []):
            if b and [x * y for x, y in zip(d[q], b)] != grid:
                return f'the decomposition is printed as {d[q]} but process {k} holds a box of {b} cells of the grid {grid}'
        if int(np.prod(d[q])) != N:
            return f'the printed decomposition {d[q]} has not one sub-domain per process ({N})'
    return None


def extent(rows, nd):
    a = np.asarray(rows).reshape(-1, nd + 1)[:, :nd]
    return [int(x) for x in a.max(0) - a.min(0) + 1] if len(a) else None


def files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def announced(out):
    return re.findall(r'(?i)written to (?:the )?file:?\s+(\S+)', out)


def judge_files(d, out, vtk, c):
    f, a = files(d), announced(out)
    c['_files'] = f
    if not vtk:
        return f'it was not asked for a file but writes {f}' if f else f'it announces the file {a[0]} without being asked for one' if a else None
    if not f:
        return 'it was asked for a VTK file but writes none'
    for x in a:
        if x not in f:
            return f'it announces the file {x} but writes {f}'
    if a and len(f) > len(a):
        return f'it announces {a} but writes {f}'
    return None


def judge_steps(out, ns):
    it = [int(x) for x in re.findall(r'(?m)^\s*iter\s+(\d+)', out)]
    return None if it == list(range(ns)) else f'{len(it)} step lines are printed instead of those of steps 0 to {ns - 1} in order'


def run(ctx, cases):
    ctx.rule = ('a case is one run of a program or of several distributed objects: printed threads against the team sizes observed at the OpenMP runtime, printed processes, grids and '
                'decompositions against the boxes held, announced files and steps against those written and taken; non-trivial: more than one thread, process or cell')
    ctx.assumptions = ['OMP_DYNAMIC is off and OMP_NUM_THREADS one number when threads are judged', 'programs known to print a banner: ' + ', '.join(BANNER)]
    cases = cases + [c.pop('peer') for c in cases if 'peer' in c]
    names = sorted({c['prog'] for c in cases if c['kind'] == 'prog'})
    dist = sorted({c['prog'] for c in cases if c['kind'] in ('dist', 'none')})
    watch = ctx.dir('tw') + '/team_watch.so'
    compile_all([['gcc', '-O1', '-shared', '-fPIC', f'{VERIF}/harness/team_watch.c', '-o', watch, '-ldl']])
    jobs = [('whole', None)] * bool(dist) + [('filter', None)] * any(c['kind'] == 'filter' for c in cases) + [('dist', None)] * bool(dist) + [('prog', n) for n in names]

    def build(j):
        if j[0] == 'prog':
            return S.build_program(ctx, j[1])
        return build_whole(ctx, dist) if j[0] == 'whole' else F.build(ctx, san=False) if j[0] == 'filter' else P.build(ctx, dist, san=False)
    exes = dict(zip(jobs, pmap(build, jobs, 4)))

    def prog(c):
        d, t = ctx.dir('p'), ctx.dir('t') + '/teams'
        py = c['prog'].endswith('.py')
        a = [c['nc'], c['ns']] + ['vtk'] * c['vtk'] if py or c['prog'].endswith('.F90') else ['-numCells', c['nc'], '-numSteps', c['ns']] + ['-vtk'] * c['vtk']
        env = base_env(OMP_NUM_THREADS=c['thr'], OMP_DYNAMIC='false', OMP_SCHEDULE=c['wait'], PYTHONPATH=f'{REPO}/upwind/python')
        if c['limit']:
            env['OMP_THREAD_LIMIT'] = str(c['limit'])
        if not py:
            env.update(VF_TEAMS=t, LD_PRELOAD=watch)
        r = run_cmd(exes['prog', c['prog']] + [str(x) for x in a], cwd=d, env=env, timeout=60)
        if r.rc or r.timeout:
            return f'ended abnormally ({r.brief()})'
        e = judge_files(d, r.out, c['vtk'], c)
        if e or py:
            return e
        try:
            teams = {int(l.split()[0]): int(l.split()[1]) for l in open(t)}
        except OSError:
            teams = {}
        ctx.count('parallel regions observed', sum(teams.values()))
        got = re.findall(r'(?i)(max\w*\s+)?(?:number|nr|no\.?) of threads\s*:?\s*(\d+)', r.out)
        num, mx = [int(x) for m, x in got if not m], [int(x) for m, x in got if m]
        if c['prog'] in BANNER and len(num) != 1:
            return f'the number of threads is printed {len(num)} times'
        want = max(teams) if teams else min(c['thr'], c['limit'] or c['thr'])
        if num and num[0] != want:
            return f'it reports {num[0]} threads, {want} execute its parallel regions (asked for {c["thr"]}, limit {c["limit"] or "none"})'
        if mx and mx[0] != c['thr']:
            return f'it reports at most {mx[0]} threads instead of {c["thr"]}'
        return None

    def filt(c):
        s = F.run_ops(ctx, exes['filter', None], c['ops'], c['N'], c['seed'])
        if s.viols:
            return s.viols[0] + sim_detail(s)
        order = [int(o[1]) for o in c['ops'] if o[0] == 'out']
        boxes = [None] * len(c['ps'])
        per = [[r for r in recs if r[0] == 'out'] for recs in s.recs]
        for q, j in enumerate(order):
            nd = len(c['ps'][j]['n'])
            boxes[j] = [extent(p[q][2], nd) if q < len(p) else None for p in per]
        ctx.count('boxes compared', sum(len(b) for b in boxes))
        return judge_config([s.out(k) for k in range(c['N'])], c['N'], [p['n'] for p in c['ps']], boxes)

    def none(c):
        w = ctx.dir('c')
        s = run_sim(ctx, exes['dist', None][c['prog']], c['args'], c['N'], c['seed'], cwd=w)
        if s.viols:
            return s.viols[0] + sim_detail(s)
        for k in range(c['N']):
            if any(configs(s.out(k))):
                return f'process {k} prints a configuration though there is no decomposition'
        out = ''.join(s.out(k) for k in range(c['N']))
        return judge_files(w, out, False, {}) and 'though there is no decomposition and nothing is computed, ' + judge_files(w, out, False, {})

    def distr(c):
        whole = exes['whole', None].get(c['prog'])
        d, w = ctx.dir('o'), ctx.dir('c')
        s = run_sim(ctx, whole or exes['dist', None][c['prog']], c['args'], c['N'], c['seed'], outdir=d, cwd=w)
        if s.viols:
            return s.viols[0] + sim_detail(s)
        box = []
        for k in range(c['N']):
            m = re.search(r'(?s)\[vf final\]\n(.*?)\[vf end\]', s.err(k))
            rows = [[float(x) for x in i.split()] + [0.0] for i in re.findall(r'inds =([\d ]+?)\s*outData =', m.group(1))] if m else []
            box.append(extent(rows, c['nd']) if rows else None)
        ctx.count('boxes compared', sum(b is not None for b in box))
        outs = [s.out(k) for k in range(c['N'])]
        e = judge_config(outs, c['N'], [[c['nc']] * c['nd']], [box]) or judge_files(w, '\n'.join(outs), '-vtk' in c['args'], c)
        if not e and c['prog'] == 'upwindMpi':
            e = judge_steps(outs[0], c['args'][c['args'].index('-numSteps') + 1])
        shutil.rmtree(d, ignore_errors=True)
        return e

    def long(c):
        d = ctx.dir('n')
        compile_all([['mpicxx'] + CXXSTD + ['-O2', f'-I{REPO}/cxx', f'{REPO}/{P.PROGRAMS[c["prog"]]}'] + lib_sources() + ['-o', f'{d}/prog']])
        r = run_cmd(mpirun(c['N']) + [f'{d}/prog', '-numCells', str(c['nc']), '-numSteps', str(c['ns'])], cwd=d, env=base_env(), timeout=240)
        if r.rc or r.timeout:
            return f'ended abnormally ({r.brief()})'
        return judge_steps(r.out, c['ns'])

    def pympi(c):
        d, w = ctx.dir('o'), ctx.dir('c')
        cmd = ['sh', '-c', f'exec "$0" "$@" > {d}/out.$OMPI_COMM_WORLD_RANK', VENV_PY, f'{REPO}/upwind/python/upwindMPI.py', str(c['nc']), str(c['ns'])] + ['vtk'] * c['vtk']
        r = run_cmd(mpirun(c['N']) + cmd, cwd=w, env=base_env(PYTHONPATH=f'{REPO}/upwind/python'), timeout=120)
        if r.rc or r.timeout:
            return f'ended abnormally ({r.brief()})'
        ls = []
        for k in range(c['N']):
            t = re.findall(r'\[(\d+)\] local number of cells:\s*\[([^\]]*)\]', open(f'{d}/out.{k}').read())
            if len(t) != 1 or int(t[0][0]) != k:
                return f'process {k} prints its box {len(t)} times ({t})'
            ls.append(ints(t[0][1]))
        l = ls[0]
        if any(x != l for x in ls) or len(l) != 3 or any(x < 1 or c['nc'] % x for x in l) or int(np.prod(l)) * c['N'] != c['nc'] ** 3:
            return f'the printed boxes {ls} do not tile the {c["nc"]}^3 cells'
        return judge_files(w, open(f'{d}/out.0').read(), c['vtk'], c)
    fn = dict(prog=prog, filter=filt, dist=distr, pympi=pympi, long=long, none=none)
    errs = pmap(lambda c: fn[c['kind']](c), cases)
    # a program asked for files writes the same ones whatever the problem
    wrote = [c.pop('_files', None) for c in cases]
    for key in {(c['kind'], c.get('prog')) for c in cases}:
        ks = [k for k, c in enumerate(cases) if (c['kind'], c.get('prog')) == key and wrote[k] and not errs[k]]
        every = set().union(*[wrote[k] for k in ks])
        for k in ks:
            if set(wrote[k]) != every:
                errs[k] = f'it was asked for files and writes {wrote[k]}, without {sorted(every - set(wrote[k]))} which it writes for other problems'
                cases[k] = dict(cases[k], peer=next(cases[q] for q in ks if set(wrote[q]) - set(wrote[k])))
    for c, e in zip(cases, errs):
        ctx.case(json.dumps(c, sort_keys=True), nontrivial=c.get('thr', c.get('N', 1)) > 1 or c.get('nc', 2) > 1, sample={k: c[k] for k in ('kind', 'prog', 'N', 'thr', 'args') if k in c})
        ctx.count(f'{c["kind"]} {c.get("prog", "")}'.strip())
        if e:
            ctx.fail(f'{c.get("prog", c["kind"])} {" ".join(map(str, c.get("args", [])))} {"on %d processes" % c["N"] if "N" in c else ""}: {e}', c)
