"""Cases for CubeDecomp and MultiArrayIter (harness/core_harness.cc)."""
import itertools
from .core import *
from . import gen as G


def build(ctx):
    b = Builder(ctx)
    fl = CXXSTD + ['-O1', f'-I{REPO}/cxx', '-D_GLIBCXX_ASSERTIONS'] + SAN
    objs = [b.obj(s, fl) for s in lib_sources(mpi=False)] + [b.obj(f'{VERIF}/harness/core_harness.cc', fl)]
    exe = b.link('core_harness', objs, SAN)
    b.go()
    return exe


def line(i, c):
    """A case: dict(kind S|J, seed, items). Sweeps carry many small grids."""
    if c['kind'] == 'S':
        items = sweep(c['sweep']) if 'sweep' in c else c['items']
        return f'S {i} {c["what"]} {c["seed"]} {len(items)} ' + ' '.join(f'{p} {len(n)} ' + ' '.join(map(str, n)) for p, n in items)
    items = iter_sweep(c['sweep']) if 'sweep' in c else c['items']
    return f'J {i} {c["seed"]} {len(items)} ' + ' '.join(f'{len(lo)} ' + ' '.join(map(str, lo + ext)) + f' {row}' for lo, ext, row in items)


def sweep(s):
    """All grids of nd axes with extents 1..m whose first extent is a, over
    every number of processes up to pmax."""
    nd, a, m, pmax = s
    return [(p, [a] + list(r)) for r in itertools.product(range(1, m + 1), repeat=nd - 1)
            for p in range(1, min(pmax, 2 + a * int(np.prod(r or [1]))) + 1)]


def iter_sweep(s):
    nd, a, m = s
    return [([(7 * j + a) % 5 for j in range(nd)], [a] + list(r), row) for r in itertools.product(range(0, m + 1), repeat=nd - 1) for row in (0, 1)]


# extents whose products wrap in 32 bits onto small numbers
# ratios that differ by little, absolutely or relatively
NEAR = [(6, [6 * 10 ** 7, 6 * 10 ** 7 + 6]), (6, [6 * 10 ** 6 + 6, 6 * 10 ** 6]), (6, [600, 606]), (6, [60006, 60000, 1]), (12, [12 * 10 ** 4, 12 * 10 ** 4 + 12, 7])]
POW2 = [(2, [2048] * 3), (8, [4096] * 3), (16, [2 ** 20, 2 ** 20]), (6, [3 * 2 ** 15, 2 ** 16, 2 ** 10]), (64, [2 ** 11] * 4), (1, [2 ** 16, 2 ** 17]), (32, [2 ** 13, 2 ** 12, 2 ** 15])]
WRAPS = [(1, [641, 6700417]), (0x10000, [65536, 65536]), (1, [65537, 65535]), (2, [2, 641, 6700417]), (4, [65536, 65536, 2]), (7, [641, 6700417, 7])]

# more processes along an axis than 10, 12, 15 or 16 bits count
MANY = [(1031, [2062]), (2049, [4098, 3]), (3 * 1500, [3000, 9]), (10007, [4, 20014]), (40000, [400, 300]), (65537, [131074]), (100003, [2, 200006]), (32771 * 2, [2, 3, 65542])]


def many(rng):
    q = rng.choice([rng.randint(1000, 5000), rng.randint(5000, 70000), rng.randint(70000, 120000)])
    n = [q * rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 3, 4, 6, 9]), rng.choice([1, 1, 2, 5])][:rng.choice([1, 2, 3])]
    rng.shuffle(n)
    return q * rng.choice([1, 1, 2, 3, 4]) + (rng.random() < 0.1), n


def random_decomp(rng):
    r = rng.random()
    if r < 0.04:
        return rng.choice(WRAPS + POW2 * 2 + NEAR[1:])
    if r < 0.5:      # a decomposition exists by construction
        nd = rng.choice([1, 2, 2, 3, 3, 3, 4, 5])
        d = [rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16]) for _ in range(nd)]
        if np.prod(d) > 5000:
            return random_decomp(rng)
        n = [x * rng.choice([1, 1, 2, 3, 5, 7, 8, 12, 30, rng.randint(1, 200)]) for x in d]
        return int(np.prod(d)), n
    nd = rng.choice([1, 2, 3, 3, 4, 5, 6])
    n = [rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 24, 25, 27, 30, 36, 49, 60, 64, 96, 97, 100, 120, 121, 128, 169, 210, 256, 360, 720, 1000, rng.randint(1, 3000)]) for _ in range(nd)]
    return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 24, 25, 27, 30, 32, 36, 48, 49, 60, 64, 72, 96, 100, 120, 121, 128, 144, 180, 210, 256, 300, 360, 512, 720, 1024]), n


def related_decomps(rng):
    """Grids in turn, several of them related to the one before."""
    res = [random_decomp(rng)]
    for _ in range(rng.randint(0, 3)):
        p, n = res[-1]
        how = rng.randrange(9)
        if how == 0:
            res.append((p, n[::-1]))
        elif how == 1:
            res.append((p, n[1:] + n[:1]))
        elif how == 2:       # the same grid over another number of processes
            res.append((rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 5, 7]), n))
        elif how == 3 and len(n) > 1:
            res.append((p, n[:-1]))
        elif how == 4 and len(n) < 6:
            res.append((p, n + [rng.choice([1, 2, 3])]))
        else:
            res.append(random_decomp(rng))
    return res


def decomp_cases(ctx, what):
    rng = ctx.rng
    cs = []
    for nd, m, pmax in ctx.pick([(1, 60, 61), (2, 14, 200), (3, 6, 220)], [(1, 400, 401), (2, 30, 902), (3, 9, 731), (4, 5, 200)]):
        for a in range(1, m + 1):
            cs.append(dict(kind='S', what=what, seed=rng.randrange(1 << 30), sweep=[nd, a, m, pmax]))
    for _ in range(ctx.pick(700, 12000)):
        # one object is used for several grids in turn
        cs.append(dict(kind='S', what=what, seed=rng.randrange(1 << 30), items=related_decomps(rng)))
    cs.append(dict(kind='S', what=what, seed=rng.randrange(1 << 30), items=POW2 + NEAR + WRAPS))
    cs += [dict(kind='S', what=what, seed=rng.randrange(1 << 30), items=[m]) for m in MANY + [many(rng) for _ in range(ctx.pick(16, 300))]]
    return cs


def run_all(ctx, cases):
    exe = build(ctx)
    order = list(range(len(cases)))
    # heavy cases spread evenly
    jobs = [order[k::NCPU] for k in range(NCPU) if order[k::NCPU]]

    def one(job):
        d = ctx.dir('core')
        res = {}
        todo = list(job)
        while todo:
            with open(f'{d}/cases.txt', 'w') as f:
                f.writelines(line(i, cases[i]) + '\n' for i in todo)
            r = run([exe, f'{d}/cases.txt'], cwd=d, timeout=800, retry=False)
            last = None
            for l in r.out.splitlines():
                t = l.split(' ', 2)
                if t[0] == 'start':
                    last = int(t[1])
                elif t[0] == 'ok':
                    res[int(t[1])] = None
                elif t[0] == 'bad':
                    res[int(t[1])] = t[2]
                elif t[0] == 'stat':
                    ctx.count(t[1], int(t[2]))
            if r.rc == 0 and not r.timeout:
                break
            if last is None or last in res:
                raise CheckError('the harness failed: ' + r.brief())
            res[last] = 'the run ends abnormally (' + r.brief() + ')'
            todo = todo[todo.index(last) + 1:]
        return res
    out = {}
    for r in pmap(one, jobs):
        out.update(r)
    for i, c in enumerate(cases):
        n = len(sweep(c['sweep']) if c['kind'] == 'S' else iter_sweep(c['sweep'])) if 'sweep' in c else len(c['items'])
        ctx.case((c['kind'], json.dumps(c.get('sweep') or c['items'])), sample={k: c[k] for k in ('sweep', 'items') if k in c})
        ctx.evals += n - 1
        if i not in out:
            raise CheckError('a case was not judged')
        if out[i]:
            ctx.fail(out[i], c)
