"""C16: impossible or unwanted runs are refused cleanly."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G, programs as P
from .c03 import mpirun

UP = {'-numCells': '128', '-numSteps': '10', '-vtk': '0'}
OPTIONS = {
    'laplacian': {'-numCells': '8000', '-numDims': '2', '-vtk': '0'},
    'testStencil2d': {'-numCells': '8', '-vtk': '0'},
    'upwindMpi': UP,
    'upwind.cxx': dict(UP, **{'-std': '0'}),
    'upwindOMPTasks.cxx': dict(UP, **{'-std': '0'}),
    'upwindAcc.cxx': dict(UP),
    'upwindAcc2.cxx': dict(UP, **{'-std': '0'}),
    'upwindOMP5.cxx': dict(UP, **{'-std': '0'}),
}
VALUED = ('-numCells', '-numSteps', '-numDims')
BADOPT = ['-numcells', '-numCell', '-numCellsX', '--numCells', '-n', '-x', '-vt', '-vtkk', '--help', '-help', '-H', '-steps', '-stdd', '-numCells=4', '-v', '--vtk', '-hh', '-numSteps10', '-_', '-=', '-?']
COMPUTES = re.compile(r'(?i)check ?sums?\b|^\s*iter\s+\d|number of cells\s*:\s*\[?\s*[-\d]|outData\s*=', re.M)


def nodecomp(nd, nc, rng, hi=36):
    c = [p for p in range(2, hi) if not G.decomps([nc] * nd, p)]
    return rng.choice(c) if c else None


def cases(ctx):
    rng = ctx.rng
    res = []
    for _ in range(ctx.pick(140, 1500)):
        prog = rng.choice(['laplacian', 'laplacian', 'testStencil2d', 'upwindMpi'])
        nd = {'testStencil2d': 2, 'upwindMpi': 3}.get(prog) or rng.choice([1, 2, 2, 3, 4])
        nc = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 24])
        N = nodecomp(nd, nc, rng)
        a = ['-numCells', nc] + (['-numDims', nd] if prog == 'laplacian' else ['-numSteps', rng.choice([0, 1, 3])] if prog == 'upwindMpi' else [])
        if rng.random() < 0.6:
            a.append('-vtk')
        res.append(dict(kind='nodecomp', prog=prog, N=N, args=[str(x) for x in a], seed=rng.randrange(1 << 30)))
    for prog, nd, nc in [('laplacian', 2, 5), ('testStencil2d', 2, 9), ('upwindMpi', 3, 5), ('upwindMPI.py', 3, 5), ('upwindMPI.py', 3, 4), ('upwindMPI.py', 3, 1)] * ctx.pick(1, 4):
        N = nodecomp(nd, nc, rng, 9)
        a = [str(nc), '3', 'vtk'] if prog == 'upwindMPI.py' else ['-numCells', str(nc), '-vtk']
        res.append(dict(kind='real', prog=prog, N=N, args=a))
    for prog, opts in OPTIONS.items():
        for k in range(ctx.pick(26, 300)):
            a = []
            for o in opts:
                if rng.random() < 0.5:
                    a.append([o, {'-numCells': str(rng.randint(1, 6)), '-numSteps': str(rng.randint(1, 4)), '-numDims': str(rng.randint(1, 3))}[o]] if o in VALUED else [o])
            bad = []
            if k % 3 != 0:
                bad = [rng.choice(BADOPT) for _ in range(rng.choice([1, 1, 1, 2]))]
                a += [[b] for b in bad]
            hlp = not bad or rng.random() < 0.15
            if hlp:
                a.append(['-h'])
            rng.shuffle(a)
            c = dict(kind='refuse', prog=prog, args=[x for g in a for x in g], bad=bad)
            if prog in P.PROGRAMS:
                c['N'] = rng.choice([1, 1, 2, 3, 4, 7])
                c['seed'] = rng.randrange(1 << 30)
            res.append(c)
    for s in S.F_SOLVERS + ['upwind.py', 'upwindMPI.py']:
        res.append(dict(kind='nocells', prog=s, thr=1, N=1))
        res.append(dict(kind='nocells', prog=s, thr=4, N=3))
    return res


def leftovers(d, known=()):
    return sorted(x for x in os.listdir(d) if not re.match(r'(rank\.\d+\.(out|err)|summary\.json|funcs\.txt|trace\.txt|f\.\d+\.(bin|prog))$', x) and x not in known)


def judge_help(c, out):
    """Every declared option with its default and a help string, on one line."""
    for o, dflt in dict(OPTIONS[c['prog']], **{'-h': '0'}).items():
        ls = [l for l in out.splitlines() if re.match(r'\s*' + o + r'(\s|$)', l)]
        if not ls:
            return f'the help does not list {o}'
        if not c['bad'] and o in c['args']:
            continue
        if not any(re.search(r'\(' + dflt + r'\)\s*$', l) and len(re.findall(r'[A-Za-z]{2,}', l.split(o, 1)[1])) >= 2 for l in ls):
            return f'the help does not show {o} with its default {dflt}: {ls[0].strip()!r}'
    if c['bad'] and not any(re.search(r'(?m)(^|[\s"\'`])' + re.escape(b) + r'($|[\s"\'`:,.])', out) for b in c['bad']):
        return f'the undeclared option ({" ".join(c["bad"])}) is not named'
    return None


def run(ctx, cases):
    ctx.rule = ('a case is one run that must be refused; its whole output on all processes, its exit, the files it leaves, the functions it enters and (under simMPI) the MPI '
                'calls it issues are judged')
    ctx.assumptions = ['a computation is recognised by its output, by entering a solver\'s advection, or by creating MPI windows']
    sims = sorted({c['prog'] for c in cases if c['prog'] in P.PROGRAMS and c['kind'] != 'real'})
    sim = P.build(ctx, sims, san=True) if sims else {}
    real = {}
    for p in sorted({c['prog'] for c in cases if c['kind'] == 'real' and c['prog'] in P.PROGRAMS}):
        real[p] = f'{ctx.dir("real")}/{p}'
    pmap(lambda p: compile_all([['mpicxx'] + CXXSTD + ['-O1', f'-I{REPO}/cxx', f'{REPO}/{P.PROGRAMS[p]}'] + lib_sources() + ['-o', real[p]]]), real)
    names = sorted({c['prog'] for c in cases if c['prog'] in S.CXX_SOLVERS})
    exes = dict(zip(names, pmap(lambda n: traced(ctx, n), names)))
    fn = sorted({c['prog'] for c in cases if c['kind'] == 'nocells' and c['prog'] != 'upwindMPI.py'})
    exes.update(zip(fn, pmap(lambda n: S.build_program(ctx, n), fn)))

    def one(c):
        d = ctx.dir('n')
        try:
            return judge(c, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(c, d):
        env = base_env(OMP_NUM_THREADS=c.get('thr', 2), PYTHONPATH=f'{REPO}/upwind/python', VF_FUNCS=f'{d}/funcs.txt')
        if c['prog'] in sim and c['kind'] != 'real':
            s = run_sim(ctx, sim[c['prog']], c['args'], c['N'], c['seed'], outdir=d)
            if s.viols:
                return s.viols[0] + sim_detail(s)
            outs = [s.out(k) + '\n' + s.err(k) for k in range(c['N'])]
            out = '\n'.join(outs)
            rma = {k: v for k, v in s.summary['counts'].items() if re.search(r'(?i)win|get|put|fence|gather', k) and v}
            ctx.count('MPI processes observed', c['N'])
            if c['kind'] == 'refuse' and rma:
                return f'the refused run communicates: {rma}'
        else:
            if c['prog'] == 'upwindMPI.py':
                cmd = mpirun(c['N']) + [VENV_PY, f'{REPO}/upwind/python/upwindMPI.py']
            elif c['kind'] == 'real':
                cmd = mpirun(c['N']) + [real[c['prog']]]
            else:
                cmd = exes[c['prog']]
            r = run_cmd(cmd + c.get('args', []), cwd=d, env=env, timeout=60)
            out = r.out + '\n' + r.err
            if r.timeout:
                return 'the run does not end'
            if r.rc < 0 or re.search(r'(?i)signal \d|segmentation|Traceback|terminate called|\*\*\* Process received|MPI_ABORT', out) or r.rc in (97, 98, 134, 139):
                return f'the run crashes ({r.brief()})'
        m = COMPUTES.search(out)
        if m:
            return f'the refused run computes: it prints {out[m.start():m.start() + 60].strip()!r}'
        left = leftovers(d)
        if left:
            return f'the refused run leaves {left}'
        if os.path.exists(f'{d}/funcs.txt'):
            fs = open(f'{d}/funcs.txt').read().split()
            if len(fs) < 3:
                raise CheckError('the entered functions are not recorded')
            ctx.count('functions entered', len(fs))
            adv = [f for f in fs if 'advect' in f]
            if adv:
                return f'the refused run computes: it enters {adv[0]}'
        if c['kind'] in ('nodecomp', 'real'):
            if not re.search(r'(?i)decomposition', out):
                return 'nothing is said about the impossible decomposition'
        elif c['kind'] == 'refuse':
            return judge_help(c, out)
        elif not re.search(r'(?i)number of cells', out):
            return 'the cell count is not asked for'
        return None
    for c, bad in zip(cases, pmap(one, cases)):
        ctx.case(json.dumps(c, sort_keys=True), sample={k: c[k] for k in ('kind', 'prog', 'N', 'args') if k in c})
        ctx.count(f'{c["kind"]} runs')
        if bad:
            ctx.fail(f'{c["prog"]} {" ".join(c.get("args", []))} ({c.get("N", 1)} processes): {bad}', c)


def traced(ctx, name):
    d = ctx.dir('t')
    fl = CXXSTD + ['-O0', '-fopenmp', '-DHAVE_OPENMP', f'-I{REPO}/cxx', '-finstrument-functions']
    objs = [f'{d}/t.o']
    jobs = [['gcc', '-O1', '-c', f'{VERIF}/harness/func_trace.c', '-o', objs[0]]]
    for i, s in enumerate(lib_sources(mpi=False) + [S.src_of(name)]):
        objs.append(f'{d}/l{i}.o')
        jobs.append(['g++'] + fl + ['-c', s, '-o', objs[-1]])
    compile_all(jobs)
    compile_all([['g++'] + objs + ['-fopenmp', '-rdynamic', '-ldl', '-o', f'{d}/prog']])
    return [f'{d}/prog']
