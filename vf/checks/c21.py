"""C21: accelerator variants on a simulated device with a memory of its own, with
concurrent teams and threads under ThreadSanitizer, and the programs themselves."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G, accel as A, ref as R, vtk as V
from .c01 import judge, model_of
from .c04 import VTKS

NO_ANSWER = 77      # accdev: a mapping it does not know


def cases(ctx):
    rng = ctx.rng
    res = []
    for conf in A.CONF:
        f = A.CONF[conf][0].endswith('.F90')
        for k in range(ctx.pick(40, 500) // (4 if conf in A.PLAIN else 1)):
            nd = 3 if not f or rng.random() < 0.6 else rng.choice([1, 2, 4, 5])
            n = G.extents(rng, nd, 4000)
            if k == 0:
                n = [40] * nd if nd == 3 else n
            v, L = G.velocity(rng, nd), G.lengths(rng, nd)
            ops = [['dump']]
            for _ in range(rng.randint(1, 3)):
                ops += [['adv', rng.choice([1, 2, 3, rng.randint(1, 30)]), G.timestep(rng, n, v, L, 'any')], ['dump']]
            res.append(dict(kind='dev', conf=conf, n=n, v=v, L=L, ops=ops, teams=rng.choice([1, 2, 3, 5, 8, 16]), thr=rng.choice([1, 2, 3, 4]),
                            seed=rng.randrange(1 << 30), delay=rng.choice([0, 30, 200])))
        for n in rng.sample(G.LARGE3, 2):
            v, L = [rng.choice([-1.0, 1.0]) for _ in n], [1.0, 1.0, 1.0]
            ops = [['adv', 4, G.timestep(rng, n, v, L, 'stable')], ['dump']]
            res.append(dict(kind='dev', conf=conf, n=n, v=v, L=L, ops=ops, teams=rng.choice([1, 3, 8]), thr=rng.choice([1, 2, 4]), seed=rng.randrange(1 << 30), delay=0))
        for k in range(0 if conf in A.PLAIN else ctx.pick(9, 90)):
            nd = 3 if not f else rng.choice([1, 2, 3, 3, 4])
            n = G.extents(rng, nd, 1500)
            v, L = G.velocity(rng, nd), G.lengths(rng, nd)
            ops = [['adv', rng.randint(1, 4), G.timestep(rng, n, v, L, 'any')], ['dump'], ['adv', rng.randint(1, 3), G.timestep(rng, n, v, L, 'any')], ['dump']]
            res.append(dict(kind='race', conf=conf, n=n, v=v, L=L, ops=ops, teams=rng.choice([2, 3, 5]), thr=rng.choice([2, 3, 4, 7]),
                            seed=rng.randrange(1 << 30), delay=rng.choice([0, 50, 300])))
        for k in range(ctx.pick(4, 25)):
            res.append(dict(kind='main', conf=conf, nc=rng.choice([1, 2, 3, 5, 8, 11]), ns=rng.choice([0, 1, 2, 5, 17]) if not f else rng.choice([1, 2, 5, 17]),
                            vtk=rng.random() < 0.6, teams=rng.choice([1, 2, 4, 7]), thr=rng.choice([1, 2, 4]), seed=rng.randrange(1 << 30), delay=rng.choice([0, 50])))
    return res


def env_of(c, log):
    return dict(VF_TEAMS=c['teams'], OMP_NUM_THREADS=c['thr'], VF_SEED=c['seed'], VF_DELAY=c['delay'], VF_ACCLOG=log,
                ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=97', TSAN_OPTIONS=S.TSAN_OPTIONS)


def device_log(log):
    tot = {}
    try:
        for l in open(log):
            w = l.split()
            for k, v in zip(w[::2], w[1::2]):
                tot[k] = tot.get(k, 0) + int(v)
    except FileNotFoundError:
        pass
    return tot


def text(r):
    for l in (r.err or '').splitlines():
        if 'SUMMARY: ' in l or 'accdev: ERROR' in l:
            return l.strip()[:220]
    return r.brief()


def main_result(ctx, exe, c, log):
    name = A.CONF[c['conf']][0]
    d = ctx.dir('m')
    args = [str(c['nc']), str(c['ns'])] + (['vtk'] if c['vtk'] else []) if name.endswith('.F90') else \
        ['-numCells', str(c['nc']), '-numSteps', str(c['ns'])] + (['-vtk'] if c['vtk'] else [])
    r = run_cmd(exe + args, cwd=d, env=base_env(**env_of(c, log)), timeout=120)
    if r.rc == NO_ANSWER:
        raise CheckError(r.err.strip()[-200:])
    if r.rc != 0 or r.timeout:
        return f'ended abnormally ({text(r)})'
    a = R.Adv([c['nc']] * 3, [1.0] * 3, [1.0] * 3)
    a.advect(c['ns'], 0.1 / c['nc'])
    m = re.findall(r'(?im)^\s*check sum:\s*(\S+)', r.out)
    if len(m) != 1:
        return f'{len(m)} check sums are printed'
    try:
        s = float(m[0])
    except ValueError:
        s = float('nan')
    want = float(a.f.sum())
    if not abs(s - want) <= 2e-5 * abs(want):
        return f'the check sum is {m[0]} instead of {want!r}'
    if c['vtk']:
        try:
            v = V.parse(f'{d}/{VTKS.get(name, "up.vtk")}')
        except V.VtkError as e:
            return f'the file: {e}'
        f = a.f.ravel()
        if v.data.size != f.size or not (np.abs(v.data - f) <= 6e-6 * np.abs(f) + 2 * a.e.ravel() + 1e-99).all():
            return 'the stored field differs from the host answer'
    return None


def run(ctx, cases):
    ctx.rule = ('a case is one problem on one accelerator variant: on a simulated device with separate memory and concurrent teams, each recorded field '
                'compared cell by cell with the model (dev); under ThreadSanitizer with concurrent teams and threads and seeded delays (race); or the program '
                'itself on the device (main). Non-trivial: at least one region ran on the device, the program has no code for the device, or (race) the field was produced by more than one thread')
    ctx.assumptions = ['the simulated device moves data as the OpenMP and OpenACC directives compiled by gcc ask',
                       'for race detection OpenACC loops are run as OpenMP loops with the same private variables',
                       'pointers inside host objects stay usable on the device (as with managed memory)']
    todo = sorted({(c['conf'], c['kind']) for c in cases})
    kinds = {'dev': 'asan', 'race': 'tsan', 'main': 'main'}
    def build(t):
        try:
            return A.build(ctx, t[0], kinds[t[1]])
        except CheckError as e:
            return e
    exes = dict(zip(todo, pmap(build, todo)))
    for t in todo:
        if isinstance(exes[t], CheckError):
            if t[1] == 'race' and t[0] not in A.OFFLOAD:
                exes[t] = None      # the translation, not the source
            elif A.compiles(ctx, t[0], accel=False) and not A.compiles(ctx, t[0], accel=True):
                c = next(c for c in cases if (c['conf'], c['kind']) == t)
                ctx.fail(f'{t[0]}: {A.CONF[t[0]][0]} compiles for the host but not for the accelerator: {str(exes[t])[-300:]}', c)
                exes[t] = None
            else:
                raise exes[t]
        if exes[t] is None:
            ctx.count(f'{t[0]} not run for races: a directive is not understood')
    keys = {}
    for c in cases:
        if c['kind'] != 'main':
            keys[repr((c['n'], c['v'], c['L'], c['ops']))] = c
    import concurrent.futures as cf
    with cf.ProcessPoolExecutor(NCPU) as ex:
        models = dict(zip(keys, ex.map(model_of, list(keys.values()), chunksize=8)))

    def one(c):
        exe = exes[(c['conf'], c['kind'])]
        if exe is None:
            return None, None
        log = os.path.join(ctx.dir('lg'), 'log')
        if c['kind'] == 'main':
            return main_result(ctx, exe, c, log), device_log(log)
        race = c['kind'] == 'race'
        e = env_of(c, log)
        if race:
            st = log + '.json'
            e['VF_GOMP_STATS'] = st
        case = {k: v for k, v in c.items() if k != 'thr'}
        recs, fl, _ = S.run_cases(ctx, exe, [(0, case)], env=e, pre=['setarch', '-R'] if race else (), timeout=240)
        obs = device_log(log)
        if race and os.path.exists(st):
            obs.update({'threads ' + k: v for k, v in json.load(open(st)).items()})
        if fl:
            if fl[1].rc == NO_ANSWER:
                raise CheckError(fl[1].err.strip()[-200:])
            return f'{c["teams"]} teams, {c["thr"]} threads: {text(fl[1])}', obs
        bad = judge(ctx, c, recs[0], models[repr((c['n'], c['v'], c['L'], c['ops']))])
        return bad, obs

    for c, (bad, obs) in zip(cases, pmap(one, cases)):
        if obs is None:
            continue
        ctx.case(json.dumps(c, sort_keys=True), nontrivial=bool(obs.get('regions') or c['conf'] in A.PLAIN or obs.get('threads entries', 0) > obs.get('threads regions', 0)),
                 sample={k: c[k] for k in ('kind', 'conf', 'n', 'teams', 'thr') if k in c})
        for k, v in obs.items():
            ctx.count(f'{c["kind"]} {k}', v)
        ctx.count(f'{c["kind"]} runs of {c["conf"]}')
        if bad:
            ctx.fail(f'{c["conf"]} ({A.CONF[c["conf"]][0]}), {c["kind"]}: {bad}', c)
