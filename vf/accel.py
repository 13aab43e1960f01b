"""Builds of the accelerator variants: on the simulated device (harness/accdev.c)
and, for OpenACC, with the parallel loops turned into OpenMP ones for race detection."""
import re
from .core import *
from . import solvers as S

# configuration -> source, compile flags
CONF = {
    'omp5': ('upwindOMP5.cxx', ['-fopenmp', '-DHAVE_OPENMP', '-DHAVE_OPENMP_OFFLOAD']),
    'f08gpu-omp': ('upwindF08Gpu.F90', ['-fopenmp', '-DHAVE_OPENMP', '-DHAVE_OPENMP_OFFLOAD']),
    'acc': ('upwindAcc.cxx', ['-fopenacc', '-DHAVE_OPENACC']),
    'acc2': ('upwindAcc2.cxx', ['-fopenacc', '-DHAVE_OPENACC']),
    'f08gpu-acc': ('upwindF08Gpu.F90', ['-fopenacc', '-DHAVE_OPENACC']),
    'f08gpu-kernels': ('upwindF08Gpu.F90', ['-fopenacc', '-DHAVE_OPENACC', '-DHAVE_OPENACC_KERNELS']),
    'fortran-acc': ('upwind.F90', ['-fopenacc', '-DHAVE_OPENACC']),
}
# programs without directives of their own for the accelerator, built in its configuration (no OpenMP, other branches)
PLAIN = {
    'cxx-acc': ('upwind.cxx', ['-fopenacc', '-DHAVE_OPENACC']),
    'tasks-acc': ('upwindOMPTasks.cxx', ['-fopenacc', '-DHAVE_OPENACC']),
    'f03-acc': ('upwindF03.F90', ['-fopenacc', '-DHAVE_OPENACC']),
    'f08-acc': ('upwindF08.F90', ['-fopenacc', '-DHAVE_OPENACC']),
    'f08-omp': ('upwindF08.F90', ['-fopenmp', '-DHAVE_OPENMP', '-DHAVE_OPENMP_OFFLOAD']),
}
CONF.update(PLAIN)
OFFLOAD = [c for c in CONF if '-fopenmp' in CONF[c][1]]


def wraps(*files):
    syms = []
    for f in files:
        for line in open(f'{VERIF}/harness/{f}'):
            if line.startswith('// wrap:'):
                syms += line.split(':', 1)[1].split()
    return ['-Wl,' + ','.join('--wrap=' + s for s in syms)]


def _clauses(text):
    """[(name, argument or None)] or None when the text is not a list of clauses."""
    res, i = [], 0
    text = text.strip()
    while i < len(text):
        m = re.compile(r'[\s,]*([A-Za-z_]+)\s*').match(text, i)
        if not m:
            return None if text[i:].strip(' ,') else res
        i, arg = m.end(), None
        if i < len(text) and text[i] == '(':
            k, j = 0, i
            while j < len(text):
                k += {'(': 1, ')': -1}.get(text[j], 0)
                j += 1
                if k == 0:
                    break
            else:
                return None
            arg, i = text[i + 1:j - 1], j
        res.append((m.group(1).lower(), arg))
    return res


def _loop(cl):
    """OpenMP clauses for those of an OpenACC loop; None: not a parallel loop or not understood."""
    keep = []
    for name, arg in cl:
        if name in ('private', 'firstprivate'):
            keep.append(f'{name}({re.sub(r"\[[^]]*\]", "", arg)})')
        elif name in ('reduction', 'collapse'):
            keep.append(f'{name}({arg})')
        elif name in ('seq', 'if', 'self', 'tile', 'auto', 'deviceptr'):
            return None
    return ' '.join(keep)


def _directive(text):
    """What replaces an OpenACC directive: '' (nothing), the OpenMP loop clauses, or None (unknown)."""
    w = re.match(r'\s*((?:end\s+)?[a-z]+(?:\s+(?:data|loop))?)\b', text, re.I)
    if not w:
        return None
    name = ' '.join(w.group(1).lower().split())
    if name in ('parallel loop', 'kernels loop'):
        c = _clauses(text[w.end():])
        c = None if c is None else _loop(c)
        return None if c is None else ('loop', c)
    if name in ('end parallel loop', 'end kernels loop'):
        return ('endloop', '')
    if name in ('kernels', 'end kernels', 'parallel', 'end parallel'):
        return ('region', '')
    if name == 'loop':
        c = _clauses(text[w.end():])
        if c is None:
            return None
        if any(n == 'independent' for n, _ in c):
            c = _loop(c)
            return None if c is None else ('loop', c)
        return ('drop', '')
    if name.split()[0] in ('data', 'enter', 'exit', 'update', 'wait', 'routine', 'end', 'cache', 'host'):
        return ('drop', '')
    return None


def to_openmp(src, fortran):
    """The source with its OpenACC loops as OpenMP loops, or None when it holds a directive not understood."""
    lines, out, n = src.split('\n'), [], 0
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'\s*!\$(acc|omp)\b(.*)' if fortran else r'\s*#\s*pragma\s+(acc)\b(.*)', l, re.I)
        if not m:
            out.append(l)
            i += 1
            continue
        kind, text, used = m.group(1).lower(), m.group(2), 1
        while text.rstrip().endswith('&' if fortran else '\\'):
            nxt = lines[i + used] if i + used < len(lines) else ''
            if fortran:
                nxt = re.sub(r'^\s*!\$(acc|omp)\s*&?', '', nxt, flags=re.I)
            text = text.rstrip()[:-1] + ' ' + nxt
            used += 1
        i += used
        rep = ''
        if kind == 'acc':
            d = _directive(text)
            if d is None or (d[0] == 'region' and not fortran):
                return None
            if d[0] == 'loop':
                n += 1
                rep = ('!$omp parallel do ' if fortran else '#pragma omp parallel for ') + d[1]
        out.append(rep)
        out += [''] * (used - 1)
    return '\n'.join(out) if n else None


def source(ctx, conf, race):
    """Path of the source to compile for a configuration."""
    name, flags = CONF[conf]
    path = S.src_of(name)
    if not race or conf in OFFLOAD:
        return path
    fortran = name.endswith('.F90')
    d = ctx.dir('tr')
    if fortran:     # directives depend on the preprocessor
        r = run(['gfortran', '-cpp', '-E', '-P'] + [f for f in flags if f.startswith('-D')] + [path])
        if r.rc != 0:
            raise CheckError('cannot preprocess: ' + r.brief())
        text = r.out
    else:
        text = open(path).read()
    text = to_openmp(text, fortran)
    if text is None:
        return None
    out = f'{d}/{name}'
    open(out, 'w').write(text)
    return out


def compiles(ctx, conf, accel):
    name, flags = CONF[conf]
    d = ctx.dir('c')
    if not accel:
        flags = []
    if name.endswith('.F90'):
        cmd = ['gfortran', '-w', '-J', d, '-I', d]
    else:
        cmd = ['g++'] + CXXSTD + [f'-I{REPO}/cxx']
    return run(cmd + flags + ['-c', S.src_of(name), '-o', f'{d}/o.o'], timeout=120).rc == 0


def build(ctx, conf, kind):
    """kind: asan, tsan, plain: the solver under its driver; main: the program itself. None: not translatable."""
    name, flags = CONF[conf]
    race = kind == 'tsan'
    src = source(ctx, conf, race)
    if src is None:
        return None
    fortran = name.endswith('.F90')
    host = race and conf not in OFFLOAD
    fl = [f for f in flags if f.startswith('-D')] + (['-fopenmp'] if host else [f for f in flags if f.startswith('-f')]) + ['-foffload=disable']
    fl = [f for f in fl if not (host and f == '-foffload=disable')]
    sf = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'], 'tsan': ['-fsanitize=thread']}.get(kind, [])
    d = ctx.dir('a')
    jobs, objs = [], [f'{d}/dev.o']
    jobs.append(['gcc', '-g', '-O1', '-w', '-c', f'{VERIF}/harness/accdev.c', '-o', f'{d}/dev.o'])
    if race:
        objs.append(f'{d}/w.o')
        jobs.append(['gcc', '-g', '-O1', '-fsanitize=thread', '-c', f'{VERIF}/harness/gomp_wrap.c', '-o', f'{d}/w.o'])
    if fortran:
        comp = 'gfortran'
        ff = ['-g', '-w', '-O1', '-J', d, '-I', d]
        objs.append(f'{d}/m.o')
        compile_all([['gfortran', '-cpp'] + ff + fl + sf + ['-c', src, '-o', f'{d}/m.o']])
        if kind != 'main':
            compile_all([['objcopy', '--redefine-sym', 'main=vf_unused_main', f'{d}/m.o']])
            objs.append(f'{d}/d.o')
            jobs.append(['gfortran'] + ff + ['-fopenmp', '-c', f'{VERIF}/harness/solver_driver.F90', '-o', f'{d}/d.o'])
    else:
        comp = 'g++'
        cf = CXXSTD + ['-O1', f'-I{REPO}/cxx', f'-I{os.path.dirname(S.src_of(name))}'] + fl + sf
        for i, s in enumerate(lib_sources(mpi=False)):
            objs.append(f'{d}/l{i}.o')
            jobs.append(['g++'] + cf + ['-c', s, '-o', objs[-1]])
        objs.append(f'{d}/h.o')
        if kind == 'main':
            jobs.append(['g++'] + cf + ['-c', src, '-o', f'{d}/h.o'])
        else:
            jobs.append(['g++'] + cf + [f'-DSOLVER_FILE="{src}"', '-DNDMIN=3', '-c', f'{VERIF}/harness/solver_harness.cc', '-o', f'{d}/h.o'])
    compile_all(jobs)
    exe = f'{d}/x.exe'
    compile_all([[comp] + objs + sf + fl + (['-fopenmp'] if fortran and kind != 'main' else []) + ['-o', exe, '-lpthread']
                 + wraps('accdev.c', *(['gomp_wrap.c'] if race else []))])
    return [exe]
