"""C14: no memory error or undefined behaviour on any valid input."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G, filt as F, programs as P, coreh
from . import c11, c15, c16

UB = ('-fsanitize=float-cast-overflow',)
REPORT = re.compile(r'ERROR: AddressSanitizer|runtime error:|Assertion .* failed|Fortran runtime error|At line \d+ of file')
VG = re.compile(r'==\d+== (Conditional jump|Use of uninit|Invalid|Syscall param|Source and destination|Mismatched|Jump to|Process terminating|Argument|realloc|.*fishy)')
LIMITS = 'Fortran runtime error'


def solver_ops(rng, n, v, L, nd, small):
    ops = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.8:
            ops.append(['adv', rng.randint(0, 3) if small else rng.choice([0, 1, 2, 3, rng.randint(1, 30)]), G.timestep(rng, n, v, L, 'any')])
        ops.append(rng.choice([['sum'], ['std'], ['dump'], ['vtk', 'x.vtk'] if nd <= 3 else ['sum']]))
    return ops + [['dump']]


def solver_case(ctx, s, small=False):
    rng = ctx.rng
    nd = 3 if not S.dims_ok(s, 2) else rng.choice([1, 2, 3, 3, 4, 5])
    n = G.extents(rng, nd, 120 if small else 3000, big=0.0 if small else 0.1)
    v, L = G.velocity(rng, nd), G.lengths(rng, nd)
    return dict(solver=s, n=n, v=v, L=L, ops=solver_ops(rng, n, v, L, nd, small), thr=1 if small else rng.choice([1, 1, 2, 4]))


def cli_args(rng, s, full=False):
    """A valid, a help or a refused command line; the full one asks for everything."""
    if s == 'matmult' and full:
        return [str(c15.size(rng)) for _ in range(3)]
    if full:
        nc, ns = str(rng.randint(2, 5)), str(rng.randint(1, 5))
        if s.endswith('.F90'):
            return [nc, ns, 'vtk']
        a = [['-numCells', nc]] + [[o, v] for o, v in (('-numSteps', ns), ('-numDims', str(rng.randint(1, 3)))) if o in c16.OPTIONS[s]]
        a += [[o] for o in ('-vtk', '-std') if o in c16.OPTIONS[s]]
        rng.shuffle(a)
        return [x for g in a for x in g]
    if s == 'matmult':
        return [rng.choice(c15.JUNK) if rng.random() < 0.15 else str(c15.size(rng)) for _ in range(rng.randint(0, 5))]
    r = rng.random()
    nc, ns = rng.choice([1, 1, 2, 3, 4, 5, 8, rng.randint(1, 16)]), rng.choice([0, 1, 2, 5, 11])
    if s.endswith('.F90'):
        if r < 0.15:
            return []
        return [[str(nc)], [str(nc), str(ns)], [str(nc), str(ns), 'vtk'], [str(nc), str(ns), 'vtk'], [str(nc), str(ns), 'novtk'], [str(nc), str(ns), 'vtk', '7', 'more']][rng.randrange(6)]
    a = [['-numCells', str(nc)]]
    opts = c16.OPTIONS[s]
    if '-numSteps' in opts:
        a.append(['-numSteps', str(ns)])
    if '-numDims' in opts:
        a[0][1] = str(nc if nc < 8 else 6)
        a.append(['-numDims', str(rng.randint(1, 4))])
    for o in ('-vtk', '-std'):
        if o in opts and rng.random() < 0.6:
            a.append([o])
    if r < 0.12:
        a.append(['-h'])
    elif r < 0.24:
        a.append([rng.choice(c16.BADOPT)])
    elif r < 0.34:
        a.append([rng.choice(['', 'x', '-', '12', '-7'])])
    rng.shuffle(a)
    return [x for g in a for x in g]


def filter_case(ctx, small=False):
    """A history; sometimes over a number of processes without decomposition."""
    rng = ctx.rng
    N = rng.choice([1, 2, 3, 4] if small else [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16])
    nobj = 1 if small else rng.choice([1, 1, 2])
    ops = []
    for j in range(nobj):
        p = F.problem(rng, N, cells=100 if small else 600)
        if rng.random() < 0.2:
            for _ in range(50):
                n = [rng.randint(1, 6) for _ in p['n']]
                if not G.decomps(n, N):
                    p['n'] = n
                    break
        nd = len(p['n'])
        bad = not G.decomps(p['n'], N)
        ops += [F.new_op(j, p), F.idx_op(rng, j, nd)]
        for _ in range(rng.randint(2, 5 if small else 9)):
            op = rng.choice(['apply'] * 3 + ['copy'] * 2 + ['in', 'out', 'sumin', 'sumout', 'setpos', 'setidx', 'vtk', 'win', 'dst'])
            if op == 'setpos':
                ops.append(F.pos_op(rng, j, nd))
            elif op == 'setidx':
                ops.append(F.idx_op(rng, j, nd))
            elif op in ('win', 'dst'):
                sd = F.sides(p)
                if sd and not bad and (op == 'win' or ['apply', j] in ops):
                    ops.append([op, j] + rng.choice(sd))
            elif op == 'vtk':
                ops.append(['vtk', j, f'm{len(ops)}.vtk'])
            else:
                ops.append([op, j])
    return dict(N=N, ops=ops, seed=rng.randrange(1 << 30))


def prog_case(ctx, small=False, full=None):
    rng = ctx.rng
    prog = full or rng.choice(list(P.PROGRAMS))
    a = cli_args(rng, prog, bool(full))
    nc = int(a[a.index('-numCells') + 1])
    nd = int(a[a.index('-numDims') + 1]) if '-numDims' in a else 2 if prog != 'upwindMpi' else 3
    good = [q for q in range(1, 5 if small else 17) if G.decomps([nc] * nd, q)]
    if small or (nc ** nd > 3000 and rng.random() < 0.8):
        a[a.index('-numCells') + 1] = str(min(nc, 4))
        good = [q for q in range(1, 5) if G.decomps([min(nc, 4)] * nd, q)]
    return dict(prog=prog, N=rng.choice(good) if full or rng.random() < 0.75 else rng.randint(1, 4 if small else 9), args=a, seed=rng.randrange(1 << 30))


def cases(ctx):
    rng = ctx.rng
    res = []
    comp = list(S.CXX_SOLVERS) + S.F_SOLVERS
    for s in comp:
        for _ in range(ctx.pick(25, 400)):
            res.append(dict(kind='solver', **solver_case(ctx, s)))
        n, L = rng.choice(G.LARGE3), [1.0, 1.0, 1.0]
        v = [rng.choice([-1.0, 1.0]) for _ in n]
        res.append(dict(kind='solver', solver=s, n=n, v=v, L=L, ops=[['adv', 2, G.timestep(rng, n, v, L, 'stable')], ['sum']], thr=rng.choice([1, 2, 4])))
        for _ in range(ctx.pick(6, 60)):
            res.append(dict(kind='vgsolver', **solver_case(ctx, s, True)))
        for k in range(ctx.pick(8, 80)):
            res.append(dict(kind='cli', prog=s, args=cli_args(rng, s), thr=rng.choice([1, 2, 4])))
        for k in range(ctx.pick(2, 12)):
            res.append(dict(kind='vgcli', prog=s, args=cli_args(rng, s, k % 2 == 0), thr=1))
        for k in range(ctx.pick(3, 30)):
            res.append(dict(kind='perturb', prog=s, args=cli_args(rng, s), thr=rng.choice([1, 3])))
    for k in range(ctx.pick(14, 150)):
        res.append(dict(kind='cli', prog='matmult', args=cli_args(rng, 'matmult'), thr=2))
    for k in range(ctx.pick(3, 20)):
        res.append(dict(kind='vgcli', prog='matmult', args=cli_args(rng, 'matmult', k == 0), thr=1))
        res.append(dict(kind='perturb', prog='matmult', args=cli_args(rng, 'matmult'), thr=1))
    for k in range(ctx.pick(110, 1500)):
        res.append(dict(kind='filter', **filter_case(ctx)))
    for n, N in F.LARGE:
        p = F.large(rng, n, N, rng.choice(['laplace', 'wide']))
        res.append(dict(kind='filter', N=N, seed=rng.randrange(1 << 30), ops=[F.new_op(0, p), F.idx_op(rng, 0, len(n)), ['apply', 0], ['copy', 0], ['apply', 0], ['sumout', 0]]))
    for k in range(ctx.pick(14, 150)):
        res.append(dict(kind='vgfilter', **filter_case(ctx, True)))
    for k in range(ctx.pick(24, 300)):
        res.append(dict(kind='pfilter', **filter_case(ctx)))
    for k in range(ctx.pick(50, 600)):
        res.append(dict(kind='mpi', **prog_case(ctx)))
    for k in range(ctx.pick(6, 60)):
        res.append(dict(kind='vgmpi', **prog_case(ctx, True)))
    for k in range(ctx.pick(2, 20)):
        res += [dict(kind='vgmpi', **prog_case(ctx, True, q)) for q in P.PROGRAMS]
    res += [dict(kind='edge', mode=m) for m in ('san', 'vg')]
    for k in range(ctx.pick(8, 60)):
        res.append(dict(kind='args', seed=rng.randrange(1 << 40), count=150, mode='vg' if k % 4 == 3 else 'san'))
    for k in range(ctx.pick(6, 40)):
        res.append(dict(kind='core', mode='vg' if k % 3 == 2 else 'san', seed=rng.randrange(1 << 30)))
    return res


def core_lines(c):
    rng = random.Random(c['seed'])
    items = []
    k = 6 if c['mode'] == 'vg' else 40
    for i in range(k):
        its = []
        for _ in range(rng.randint(1, 3)):
            while True:
                p, n = coreh.random_decomp(rng)
                if p <= 60 and max(n) <= 200 and len(n) <= 4:
                    break
            its.append((p, n))
        items.append(dict(kind='S', what='tcn', seed=i, items=its))
        nd = rng.randint(1, 5)
        items.append(dict(kind='J', seed=i, items=[[[rng.randint(0, 9) for _ in range(nd)], [rng.randint(0, 4) for _ in range(nd)], rng.randrange(2)] for _ in range(2)]))
    return [coreh.line(i, c) + '\n' for i, c in enumerate(items)]


def vg(d):
    return ['valgrind', '-q', '--leak-check=no', f'--log-file={d}/vg.%p', '--num-callers=8', '--suppressions=' + f'{VERIF}/harness/valgrind.supp', '--max-stackframe=8000000']


def vg_report(d):
    for fn in sorted(os.listdir(d)):
        if fn.startswith('vg.'):
            t = open(f'{d}/{fn}', errors='replace').read().splitlines()
            for i, l in enumerate(t):
                if VG.match(l):
                    return 'memcheck: ' + ' | '.join(re.sub(r'==\d+==\s*', '', x) for x in t[i:i + 4])[:300]
    return None


def run(ctx, cases):
    ctx.rule = ('a case is one program run or one batch member driven through the libraries, executed with AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and Fortran '
                'run-time checks, or with memcheck (uninitialised use), or twice with differently filled heaps; distinct: inputs')
    ctx.assumptions = ['leaks are not judged here', 'memory is judged by the sanitizers\' and memcheck\'s rules', 'simMPI executes MPI calls with the semantics of the MPI standard']
    K = {}
    for c in cases:
        K.setdefault(c['kind'], []).append(c)

    def want(*ks):
        return [c for k in ks for c in K.get(k, [])]
    tasks = {}
    for n in sorted({c['solver'] for c in want('solver')}):
        tasks['san', n] = lambda n=n: S.build_one(ctx, n, san=True, opt='-O1', extra=UB if n.endswith('.cxx') else ())
    for n in sorted({c['solver'] for c in want('vgsolver')}):
        tasks['vgs', n] = lambda n=n: S.build_one(ctx, n, opt='-O0')
    for n in sorted({c['prog'] for c in want('cli')}):
        tasks['cli', n] = lambda n=n: build_matmult(ctx, True) if n == 'matmult' else S.build_program(ctx, n, san=True, opt='-O1')
    for n in sorted({c['prog'] for c in want('vgcli', 'perturb')}):
        tasks['plain', n] = lambda n=n: build_matmult(ctx, False) if n == 'matmult' else S.build_program(ctx, n, opt='-O0')
    if want('filter', 'mpi'):
        tasks['sim', ''] = lambda: P.build(ctx, sorted({c['prog'] for c in want('mpi')}), san=True, filt=True)
    if want('vgfilter', 'vgmpi', 'pfilter'):
        tasks['vgsim', ''] = lambda: vg_sim(ctx, sorted({c['prog'] for c in want('vgmpi')}))
    for h in ('edge', 'args', 'core'):
        for m in sorted({c['mode'] for c in want(h)}):
            tasks[h, m] = lambda h=h, m=m: plain_harness(ctx, h, m == 'san')
    keys = list(tasks)
    exe = dict(zip(keys, pmap(lambda k: tasks[k](), keys)))
    done = []      # (case, complaint)

    def batch(job):
        kind, s, ch = job
        d = ctx.dir('v')
        res = []
        if kind == 'solver':
            recs, failure, rd = S.run_cases(ctx, exe['san', s], list(enumerate(ch)), timeout=300)
        else:
            recs, failure, rd = S.run_cases(ctx, exe['vgs', s], list(enumerate(ch)), timeout=300, pre=vg(d))
        bad = None
        if failure:
            bad = (failure[0] or 0, report(failure[1]) or f'ended abnormally ({failure[1].brief()})')
        r = vg_report(d)
        if r:
            bad = (0, r)
        for i, c in enumerate(ch):
            res.append((c, bad[1] if bad and bad[0] == i else None))
        shutil.rmtree(rd, ignore_errors=True)
        return res
    jobs = [(k, s, ch) for k in ('solver', 'vgsolver') for s in sorted({c['solver'] for c in want(k)}) for ch in S.chunks([c for c in want(k) if c['solver'] == s], 2)]
    for res in pmap(batch, jobs):
        done += res

    def one(c):
        d = ctx.dir('x')
        try:
            return judge(c, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(c, d):
        k = c['kind']
        if k in ('cli', 'vgcli'):
            pre = vg(d) if k == 'vgcli' else []
            r = run_cmd(pre + exe['cli' if k == 'cli' else 'plain', c['prog']] + c['args'], cwd=d, env=base_env(OMP_NUM_THREADS=c['thr']), timeout=200)
            return report(r) or vg_report(d) or (f'ended abnormally ({r.brief()})' if r.rc < 0 or r.rc > 2 or r.timeout else None)
        if k == 'perturb':
            def once(byte, k=0):
                q = f'{d}/{byte}.{k}'
                os.makedirs(q)
                r = run_cmd(exe['plain', c['prog']] + c['args'], cwd=q, env=base_env(OMP_NUM_THREADS=c['thr'], MALLOC_PERTURB_=byte), timeout=200)
                # threads may print their lines in any order
                return r.rc, sorted(r.out.splitlines()), {x: open(f'{q}/{x}', errors='replace').read() for x in sorted(os.listdir(q))}
            outs = [once(byte) for byte in (1, 170, 255)]
            if all(o == outs[0] for o in outs):
                return None
            if c['thr'] > 1 and any(once(1, k) != outs[0] for k in range(1, 6)):
                ctx.count('outputs that differ between equal runs (not judged)')
                return None
            return 'the output depends on what the memory held before'
        if k in ('filter', 'vgfilter'):
            s = F.run_ops(ctx, exe['sim' if k == 'filter' else 'vgsim', '']['filter'], c['ops'], c['N'], c['seed'], wrapper=vg(d) if k == 'vgfilter' else (), timeout=400)
            ctx.count('processes observed', c['N'])
            bad = sim_bad(s) or vg_report(d)
            shutil.rmtree(s.dir, ignore_errors=True)
            return bad
        if k == 'pfilter':
            outs = []
            for byte in (1, 170, 255):
                s = F.run_ops(ctx, exe['vgsim', '']['filter'], c['ops'], c['N'], c['seed'], env=dict(MALLOC_PERTURB_=str(byte)))
                if s.viols:
                    return sim_bad(s)
                outs.append([[(t, a, x.tobytes()) for t, a, x in r] for r in s.recs])
                shutil.rmtree(s.dir, ignore_errors=True)
            if any(o != outs[0] for o in outs[1:]):
                return 'the results depend on what the memory held before'
            return None
        if k in ('mpi', 'vgmpi'):
            s = run_sim(ctx, exe['sim' if k == 'mpi' else 'vgsim', ''][c['prog']], c['args'], c['N'], c['seed'], outdir=ctx.dir('y'), wrapper=vg(d) if k == 'vgmpi' else (), timeout=400)
            ctx.count('processes observed', c['N'])
            bad = sim_bad(s) or vg_report(d)
            shutil.rmtree(s.dir, ignore_errors=True)
            return bad
        pre = vg(d) if c['mode'] == 'vg' else []
        if k == 'edge':
            cmd = [exe[k, c['mode']]]
        elif k == 'core':
            with open(f'{d}/cases.txt', 'w') as f:
                f.writelines(core_lines(c))
            cmd = [exe[k, c['mode']], f'{d}/cases.txt']
        else:
            rng = random.Random(c['seed'])
            with open(f'{d}/cases.txt', 'w') as f:
                for i in range(c['count']):
                    f.writelines(l + '\n' for l in c11.script(i, c11.spec(rng)))
            cmd = [exe[k, c['mode']], f'{d}/cases.txt', f'{d}/out.txt', f'{d}/cap.txt']
        r = run_cmd(pre + cmd, cwd=d, timeout=400)
        return report(r) or vg_report(d) or (f'ended abnormally ({r.brief()})' if r.rc or r.timeout else None)

    rest = [c for c in cases if c['kind'] not in ('solver', 'vgsolver')]
    rest.sort(key=lambda c: not c['kind'].startswith('vg'))
    done += list(zip(rest, pmap(one, rest)))
    for c, bad in done:
        ctx.case(json.dumps(c, sort_keys=True), sample={k: c[k] for k in ('kind', 'prog', 'solver', 'N', 'n', 'args') if k in c})
        ctx.count(f'{c["kind"]} runs')
        if bad:
            who = c.get('prog') or c.get('solver') or c['kind']
            ctx.fail(f'{who}: {bad} ' + ' '.join(f'{k}={c[k]}' for k in ('N', 'n', 'args', 'mode') if k in c), c)


def report(r):
    for l in (r.err + '\n' + r.out).splitlines():
        if REPORT.search(l):
            i = r.err.splitlines().index(l) if l in r.err.splitlines() else -1
            more = [x.strip() for x in r.err.splitlines()[i + 1:i + 6] if 'file' in x or '#0' in x or '#1' in x or 'Fortran' in x] if i >= 0 else []
            return ' | '.join([l.strip()] + more)[:300]
    return None


def sim_bad(s):
    return s.viols[0] + sim_detail(s) if s.viols else None


def build_matmult(ctx, san):
    d = ctx.dir('mm')
    compile_all([['gfortran', '-g', '-w', '-O1' if san else '-O0', '-fopenmp', '-DHAVE_OPENMP', '-J', d, c15.SRC, '-o', f'{d}/matmult'] + (SAN + ['-fcheck=all'] if san else [])])
    return [f'{d}/matmult']


def vg_sim(ctx, progs):
    # unoptimised: an optimiser may replace an uninitialised variable by a defined one
    b = Builder(ctx)
    x = ['-DSIMMPI_NOFILL']
    res = {n: build_sim(b, n, f'{REPO}/{P.PROGRAMS[n]}', san=False, opt='-O0', extra=x) for n in progs}
    res['filter'] = build_sim(b, 'filter', f'{VERIF}/harness/filter_harness.cc', san=False, opt='-O0', extra=x)
    b.go()
    return res


def plain_harness(ctx, h, san):
    b = Builder(ctx)
    fl = CXXSTD + ['-O1', f'-I{REPO}/cxx'] + (SAN + list(UB) + ['-D_GLIBCXX_ASSERTIONS'] if san else [])
    objs = [b.obj(s, fl) for s in lib_sources(mpi=False)] + [b.obj(f'{VERIF}/harness/{h}_harness.cc', fl)]
    exe = b.link(h, objs, SAN if san else [])
    b.go()
    return exe
