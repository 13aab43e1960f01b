"""C15: both matrix products are exact products for every size."""
import re
from ..core import *
from ..core import run as run_cmd

SRC = f'{REPO}/matmult/fortran/matmult.F90'
JUNK = ['abc', '3.7', '1e2', '/', ',', 'x', '4x', '-', '2,5', '3;', '--', 'n=3', '*', 'seven', '0x10', '2*3', "'5'", '.', '5.0', '1d1', 'T', 'NaN']
VARIANTS = {
    'O2': ['-O2', '-fopenmp', '-DHAVE_OPENMP'],
    'san': ['-O1', '-fopenmp', '-DHAVE_OPENMP', '-fcheck=all'] + SAN,
    'par': ['-O3', '-fopenmp', '-DHAVE_OPENMP', '-ftree-parallelize-loops=4'],
}


def size(rng):
    r = rng.random()
    return 0 if r < 0.1 else 1 if r < 0.22 else rng.randint(2, 12) if r < 0.8 else rng.choice([15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 97, 100, 127, 128, 129])


def cases(ctx):
    rng = ctx.rng
    cs = []
    for v in VARIANTS:
        m = ctx.pick(5, 9)
        small = [[n, k, l] for n in range(m) for k in range(m) for l in range(m)]
        for mode in (0, 1, 2):
            cs.append(dict(kind='lib', variant=v, mode=mode, seed=rng.randrange(1 << 30), sizes=small))
            for _ in range(ctx.pick(3, 12)):
                cs.append(dict(kind='lib', variant=v, mode=mode, seed=rng.randrange(1 << 30), sizes=[[size(rng) for _ in range(3)] for _ in range(ctx.pick(12, 40))]))
        for mode in (3, 4, 13, 14):
            cs.append(dict(kind='lib', variant=v, mode=mode, seed=rng.randrange(1 << 30), sizes=[[size(rng) for _ in range(3)] for _ in range(ctx.pick(12, 60))]))
        cs.append(dict(kind='lib', variant=v, mode=rng.choice([0, 1, 2, 3]), seed=rng.randrange(1 << 30), sizes=[[rng.randint(140, 260), rng.randint(140, 300), rng.randint(140, 260)]]))
        # equal extents
        for _ in range(ctx.pick(1, 4)):
            q, w = rng.randint(20, 140), rng.choice([32, 50, 64, 96, 100, 128, 160, 200, 256])
            cs.append(dict(kind='lib', variant=v, mode=rng.choice([1, 2, 3, 13]), seed=rng.randrange(1 << 30),
                           sizes=[[q, q, q], [w, w, w], [q, q, size(rng)], [q, size(rng), q], [size(rng), q, q]]))
    # extents beyond 16 bits, entries beyond single precision
    for v in ('O2', 'par'):
        cs.append(dict(kind='lib', variant=v, mode=0, seed=1, sizes=[[40001, 2, 1], [1, 40001, 1], [1, 2, 40001], [70001, 1, 2], [2, 70001, 1]]))
        cs.append(dict(kind='lib', variant=v, mode=0, seed=2, sizes=[[4300, 4200, 1]] if v == 'O2' else [[1, 4200, 4300]]))
    fixed = [[], ['3', '4', '5'], ['7'], ['7', '2'], ['2', '3', '4', '9'], ['0', '0', '0'], ['1', '1', '1'], ['+6', '+5', '+4']]
    fixed += [['12345', '2', '1'], ['1', '100003', '2'], ['2', '1', '70001'], ['1000', '1', '1024']]
    for a in fixed:
        cs.append(dict(kind='cli', args=a))
    for j in JUNK:
        cs.append(dict(kind='cli', args=[j]))
        a = [str(size(rng)) for _ in range(rng.randint(1, 4))]
        a[rng.randrange(len(a))] = j
        cs.append(dict(kind='cli', args=a))
    for _ in range(ctx.pick(120, 1500)):
        a = [rng.choice(JUNK) if rng.random() < 0.12 else str(size(rng)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 3, 3, 4, 5]))]
        cs.append(dict(kind='cli', args=a))
    return cs


def build(ctx, variants):
    def one(v):
        d = ctx.dir('mm')
        if v == 'watch':
            fl = ['-g', '-w', '-O0', '-fPIC', '-fsemantic-interposition', '-fno-inline', '-J', d]
            compile_all([['gfortran'] + fl + ['-c', SRC, '-o', f'{d}/m.o']])
            compile_all([['objcopy', '--redefine-sym', 'main=vf_program_main', f'{d}/m.o']])
            compile_all([['gfortran', '-shared', f'{d}/m.o', '-o', f'{d}/libprog.so']])
            compile_all([['gcc', '-g', '-O1', f'{VERIF}/harness/matmult_watch.c', '-o', f'{d}/watch', '-rdynamic', f'-L{d}', '-lprog', f'-Wl,-rpath,{d}', '-ldl']])
            return f'{d}/watch'
        if v == 'program':
            compile_all([['gfortran', '-g', '-w', '-O2', '-fopenmp', '-DHAVE_OPENMP', '-J', d, SRC, '-o', f'{d}/matmult']])
            return f'{d}/matmult'
        fl = VARIANTS[v]
        compile_all([['gfortran', '-g', '-w', '-J', d] + fl + ['-c', SRC, '-o', f'{d}/m.o']])
        compile_all([['objcopy', '--redefine-sym', 'main=vf_unused_main', f'{d}/m.o']])
        compile_all([['gfortran', '-g', '-w', '-I', d, '-O1', '-ffree-line-length-none', '-c', f'{VERIF}/harness/matmult_driver.F90', '-o', f'{d}/d.o']])
        compile_all([['gfortran', f'{d}/m.o', f'{d}/d.o', '-o', f'{d}/drv'] + [x for x in fl if x != '-fcheck=all']])
        return f'{d}/drv'
    return dict(zip(variants, pmap(one, variants)))


def initial(n, m, l):
    return np.arange(1, n * m + 1, dtype=float).reshape((n, m), order='F'), np.arange(n * m + 1, n * m + m * l + 1, dtype=float).reshape((m, l), order='F')


def product(a, b):
    return (a.astype(np.int64) @ b.astype(np.int64)).astype(float) if a.shape[1] else np.zeros((a.shape[0], b.shape[1]))


def diff(x, want):
    x = x.reshape(want.shape, order='F') if x.size == want.size else x
    if x.shape != want.shape:
        return f'has {x.size} entries instead of {want.size}'
    # exact while every partial sum is (all terms are positive)
    big = want.size and np.abs(want).max() >= 2.0 ** 53
    bad = np.argwhere(~(np.abs(x - want) <= 1e-11 * np.abs(want)) if big else ~(x == want))
    if len(bad):
        i = tuple(bad[0])
        return f'has {x[i]!r} instead of {want[i]!r} in row {i[0] + 1}, column {i[1] + 1} ({len(bad)} of {x.size} entries differ)'
    return None


def diff_real(x, a, b):
    """Rounded sums in any order; infinities and NaN as IEEE arithmetic has them."""
    n, m, l = a.shape[0], a.shape[1], b.shape[1]
    if x.size != n * l:
        return f'has {x.size} entries instead of {n * l}'
    x = x.reshape((n, l), order='F')
    with np.errstate(all='ignore'):
        if np.isfinite(a).all() and np.isfinite(b).all():
            want, nan = a @ b, np.zeros((n, l), dtype=bool)
            mag = np.abs(a) @ np.abs(b)
        else:
            t = a[:, :, None] * b[None, :, :]
            pos, neg, nan = (t == np.inf).any(1), (t == -np.inf).any(1), np.isnan(t).any(1)
            nan |= pos & neg
            fin = np.where(np.isfinite(t), t, 0)
            want = np.where(nan, np.nan, np.where(pos, np.inf, np.where(neg, -np.inf, fin.sum(1))))
            mag = np.abs(fin).sum(1)
        ok = np.abs(x - want) <= (2 * m + 4) * 2.3e-16 * mag + m * 1e-323
        ok = np.where(np.isfinite(want), ok, (x == want) | (nan & np.isnan(x)))
    bad = np.argwhere(~ok)
    if len(bad):
        i = tuple(bad[0])
        return f'has {x[i]!r} instead of {want[i]!r} in row {i[0] + 1}, column {i[1] + 1} ({len(bad)} of {x.size} entries differ)'
    return None


def parse(args):
    s = [3, 4, 5]
    for i, a in enumerate(args[:3]):
        if re.fullmatch(r'[+-]?\d+', a):
            s[i] = int(a)
    return s


def run(ctx, cases):
    ctx.rule = ('a case is one set of sizes: the recorded matrices are compared entry by entry with the exact integer products (results hold NaN before the call, and are '
                'used a second time), or one command line: the printed sizes and the matrices of the running program are compared with those asked for')
    ctx.assumptions = ['a non-integer argument leaves its own size at the default', 'products above 2^53 are compared to 1e-11 (relative)']
    need = sorted({c['variant'] for c in cases if c['kind'] == 'lib'}) + (['watch', 'program'] if any(c['kind'] == 'cli' for c in cases) else [])
    exes = build(ctx, need)

    def lib(c):
        d = ctx.dir('l')
        with open(f'{d}/cases.txt', 'w') as f:
            for i, s in enumerate(c['sizes']):
                f.write(f'{i} {s[0]} {s[1]} {s[2]} {c["mode"]} {c["seed"] + i}\n')
        r = run_cmd([exes[c['variant']], f'{d}/cases.txt'], cwd=d, env=base_env(VF_OUT=d, OMP_NUM_THREADS=2), timeout=200)
        cur, bad, seen = None, None, 0
        try:
            recs = read_recs(f'{d}/f.0.bin')
        except FileNotFoundError:
            recs = []
        for t, aux, x in recs:
            if t == 'case':
                cur = c['sizes'][int(aux)]
                seen += 1
                n, m, l = cur
                continue
            if bad:
                continue
            e = None
            if t == 'frame':
                e = diff(x, np.zeros(1)) and 'memory outside the matrices is modified'
            elif t in ('a', 'b'):
                if c['mode'] == 0:
                    e = diff(x, initial(n, m, l)[t == 'b'])
                    e = e and f'the {"second" if t == "b" else "first"} initial matrix {e}'
                x = x.reshape((n, m) if t == 'a' else (m, l), order='F')
                if t == 'a':
                    a = x
                else:
                    b = x
                    exact = c['mode'] < 3
                    w = (a, b) if not exact else None if not np.isfinite(a).all() or not np.isfinite(b).all() else product(a, b)
            elif t in ('a2', 'b2'):
                y = a if t == 'a2' else b
                e = 'the products change a factor' if not np.array_equal(x.reshape(y.shape, order='F'), y, equal_nan=True) else None
            elif w is not None:
                e = diff(x, w) if exact else diff_real(x, a, b)
                e = e and f'the product of matmult{t[1]} {e}' + (' (second use of the result)' if t[0] == 'd' else '')
            if e:
                bad = f'sizes {n} x {m} x {l}: {e}'
        if not bad and (r.rc != 0 or r.timeout or seen != len(c['sizes'])):
            bad = f'sizes {cur}: ended abnormally ({r.brief()})'
        shutil.rmtree(d, ignore_errors=True)
        return bad

    def cli(c):
        n, m, l = parse(c['args'])
        for v in ('program', 'watch'):
            d = ctx.dir('c')
            r = run_cmd([exes[v]] + c['args'], cwd=d, env=base_env(VF_OUT=d, OMP_NUM_THREADS=2), timeout=60)
            if r.rc != 0 or r.timeout:
                return f'the program ends abnormally ({r.brief()})'
            t = re.findall(r'matrix sizes:\s*(\d+)\s*x\s*(\d+)\s*x\s*(\d+)', r.out)
            if t != [(str(n), str(m), str(l))]:
                return f'the program reports the sizes {t} instead of {n} x {m} x {l}'
            if 'SUCCESS' not in r.out or 'ERROR' in r.out:
                return 'the program does not report success'
        try:
            recs = read_recs(f'{d}/f.0.bin')
        except FileNotFoundError:
            recs = []
        a0, b0 = initial(n, m, l)
        for t, aux, x in recs:
            ctx.count('matrices of the running program')
            want = {'ia': a0, 'ma': a0, 'ib': b0, 'mb': b0}.get(t)
            e = diff(x, product(a0, b0) if want is None else want)
            if e:
                return f'in the running program, asked for {n} x {m} x {l}, matrix {t} {e}'
            if int(aux) != (m if t in ('ib', 'mb') else n):
                return f'in the running program, asked for {n} x {m} x {l}, matrix {t} has {int(aux)} rows'
        return None
    for c, bad in zip(cases, pmap(lambda c: lib(c) if c['kind'] == 'lib' else cli(c), cases)):
        if c['kind'] == 'lib':
            for s in c['sizes']:
                ctx.case(('lib', c['variant'], c['mode'], c['seed'], s), nontrivial=min(s) > 0, sample={'sizes': s, 'mode': c['mode']})
                ctx.count('products checked', 4)
        else:
            ctx.case(('cli', c['args']), sample={'args': c['args']})
        if bad:
            ctx.fail((c.get('variant') or ' '.join(['matmult'] + c['args'])) + ': ' + bad, c)
