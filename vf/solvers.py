"""Building and driving the single-process advection solvers."""
import os, shutil
import numpy as np
from .core import *

CXX_SOLVERS = {'upwind.cxx': 1, 'upwindOMPTasks.cxx': 1, 'upwindAcc.cxx': 3, 'upwindAcc2.cxx': 3, 'upwindOMP5.cxx': 3}
F_SOLVERS = ['upwind.F90', 'upwindF03.F90', 'upwindF08.F90', 'upwindF08Gpu.F90']
ALL = list(CXX_SOLVERS) + F_SOLVERS + ['upwind.py']
OMP_SOLVERS = ['upwind.cxx', 'upwindOMPTasks.cxx'] + F_SOLVERS


def src_of(name):
    if name.endswith('.py'):
        return f'{REPO}/upwind/python/{name}'
    return f'{REPO}/upwind/{"fortran" if name.endswith(".F90") else "cxx"}/{name}'


def dims_ok(name, nd):
    return nd == 3 or CXX_SOLVERS.get(name, 1) <= 1


def build_one(ctx, name, san=False, opt='-O2', tsan=False, omp=True, extra=()):
    """Returns the command prefix that takes a case file."""
    if name.endswith('.py'):
        return [VENV_PY, f'{VERIF}/harness/py_driver.py']
    d = ctx.dir('s')
    exe = f'{d}/{name}.exe'
    sf = list(SAN) if san else (['-fsanitize=thread'] if tsan else [])
    of = ['-fopenmp', '-DHAVE_OPENMP'] if omp else []
    if name.endswith('.F90'):
        fl = ['-g', '-w', opt, '-J', d, '-I', d] + of + list(extra)
        sfl = sf + (['-fcheck=all'] if san else [])
        compile_all([['gfortran'] + fl + sfl + ['-c', src_of(name), '-o', f'{d}/m.o']])
        compile_all([['objcopy', '--redefine-sym', 'main=vf_unused_main', f'{d}/m.o']])
        # the driver itself is not instrumented
        compile_all([['gfortran'] + fl + ['-fopenmp', '-c', f'{VERIF}/harness/solver_driver.F90', '-o', f'{d}/d.o']])
        objs = [f'{d}/m.o', f'{d}/d.o']
        comp = 'gfortran'
    else:
        fl = CXXSTD + [opt, f'-I{REPO}/cxx'] + of + sf + list(extra)
        if san:
            fl.append('-D_GLIBCXX_ASSERTIONS')
        jobs, objs = [], []
        for i, s in enumerate(lib_sources(mpi=False)):
            objs.append(f'{d}/l{i}.o')
            jobs.append(['g++'] + fl + ['-c', s, '-o', objs[-1]])
        objs.append(f'{d}/h.o')
        jobs.append(['g++'] + fl + [f'-DSOLVER_FILE="{src_of(name)}"', f'-DNDMIN={CXX_SOLVERS[name]}', '-c',
                                    f'{VERIF}/harness/solver_harness.cc', '-o', f'{d}/h.o'])
        compile_all(jobs)
        comp = 'g++'
    link = []
    if tsan:
        compile_all([['gcc', '-g', '-O1', '-fsanitize=thread', '-c', f'{VERIF}/harness/gomp_wrap.c', '-o', f'{d}/w.o']])
        objs.append(f'{d}/w.o')
        link = gomp_wrap_flags()
    compile_all([[comp] + objs + sf + of + ['-o', exe] + link])
    return [exe]


TSAN_OPTIONS = 'exitcode=66:detect_deadlocks=0:atexit_sleep_ms=5:report_signal_unsafe=0:ignore_noninstrumented_modules=1:history_size=4'


def build_program(ctx, name, san=False, tsan=False, opt='-O2', omp=True):
    """The unchanged program itself (its own main)."""
    if name.endswith('.py'):
        return [VENV_PY, src_of(name)]
    d = ctx.dir('p')
    exe = f'{d}/{name.split(".")[0]}'
    sf = list(SAN) if san else (['-fsanitize=thread'] if tsan else [])
    of = ['-fopenmp', '-DHAVE_OPENMP'] if omp else []
    objs, jobs = [], []
    if name.endswith('.F90'):
        comp = 'gfortran'
        objs.append(f'{d}/m.o')
        jobs.append(['gfortran', '-g', '-w', opt, '-J', d, '-I', d] + of + sf + (['-fcheck=all'] if san else []) + ['-c', src_of(name), '-o', objs[0]])
    else:
        comp = 'g++'
        fl = CXXSTD + [opt, f'-I{REPO}/cxx'] + of + sf + (['-D_GLIBCXX_ASSERTIONS'] if san else [])
        for i, s in enumerate(lib_sources(mpi=False) + [src_of(name)]):
            objs.append(f'{d}/l{i}.o')
            jobs.append(['g++'] + fl + ['-c', s, '-o', objs[-1]])
    link = []
    if tsan:
        objs.append(f'{d}/w.o')
        jobs.append(['gcc', '-g', '-O1', '-fsanitize=thread', '-c', f'{VERIF}/harness/gomp_wrap.c', '-o', f'{d}/w.o'])
        link = gomp_wrap_flags()
    compile_all(jobs)
    compile_all([[comp] + objs + sf + of + ['-o', exe] + link])
    return [exe]


def gomp_wrap_flags():
    syms = []
    for line in open(f'{VERIF}/harness/gomp_wrap.c'):
        if line.startswith('// wrap:'):
            syms += line.split(':', 1)[1].split()
    return ['-Wl,' + ','.join('--wrap=' + s for s in syms)]


def build_many(ctx, names, **kw):
    res = pmap(lambda n: build_one(ctx, n, **kw), names)
    return dict(zip(names, res))


def num(x):
    return repr(float(x))


def case_lines(i, c):
    yield f'case {i}'
    if 'thr' in c:
        yield f'thr {c["thr"]}'
    def new(o):
        return ' '.join(['new', str(len(o['n']))] + [str(x) for x in o['n']] + [num(x) for x in o['v']] + [num(x) for x in o['L']])
    if 'objs' not in c:
        yield new(c)
    for op in c['ops']:
        if op[0] == 'new':      # object k of several
            yield f'use {op[1]}'
            yield new(c['objs'][op[1]])
        elif op[0] == 'adv':
            yield f'adv {op[1]} {num(op[2])}'
        else:
            yield ' '.join(str(x) for x in op)


def run_cases(ctx, cmd, cases, env=None, timeout=120, pre=(), keep=False, pydir=None):
    """cases: list of (index, case). Returns {index: [records]}, failure, dir
    where failure is None or (index of the case that was running, Res)."""
    d = ctx.dir('r')
    with open(f'{d}/cases.txt', 'w') as f:
        for i, c in cases:
            for l in case_lines(i, c):
                f.write(l + '\n')
        f.write('end\n')
    e = base_env(VF_OUT=d, VF_PYDIR=pydir or f'{REPO}/upwind/python', OMP_NUM_THREADS=1)
    e.update({k: str(v) for k, v in (env or {}).items()})
    r = run(list(pre) + cmd + [f'{d}/cases.txt'], cwd=d, env=e, timeout=timeout)
    recs, cur = {}, None
    try:
        for t, aux, x in read_recs(f'{d}/f.0.bin'):
            if t == 'case':
                cur = int(aux)
                recs[cur] = []
            else:
                recs[cur].append((t, x))
    except FileNotFoundError:
        pass
    failure = None
    if r.rc != 0 or r.timeout:
        try:
            p = open(f'{d}/f.0.prog').read().split()
            at = int(p[-1]) if p else None
        except FileNotFoundError:
            at = None
        if at is None and not r.timeout and r.rc not in (97, 98, 66) and r.rc > 0:
            if 'Error' in r.err and 'import' in r.err or 'No such file' in r.err:
                raise CheckError('driver failed: ' + r.brief())
        failure = (at, r)
    return recs, failure, d


def chunks(l, k):
    k = max(1, min(k, len(l)))
    return [l[i::k] for i in range(k)]
