"""C17: reported check sums and spreads are those of the field."""
import re
from ..core import *
from ..core import run as run_cmd
from .. import solvers as S, gen as G, ref as R, filt as F, programs as P
from .c03 import mpirun

CLI_STD = ['upwind.cxx', 'upwindOMPTasks.cxx', 'upwindAcc2.cxx', 'upwindOMP5.cxx']


def cases(ctx):
    rng = ctx.rng
    res = []
    for s in S.ALL:
        for k in range(ctx.pick(55, 700)):
            nd = 3 if not S.dims_ok(s, 2) else rng.choice([1, 2, 3, 3, 4])
            n = G.extents(rng, nd, 6000)
            v, L = G.velocity(rng, nd), G.lengths(rng, nd)
            flat = k % 5 == 4     # the field becomes nearly uniform
            if flat:
                n, v = [rng.randint(1, 4) for _ in range(nd)], [rng.choice([-1.0, 1.0]) for _ in range(nd)]
            ops = []
            for _ in range(rng.randint(1, 3)):
                if flat:
                    ops.append(['adv', rng.choice([rng.randint(10, 120), 400]), rng.uniform(0.3, 0.7) / G.rate(n, v, L)])
                elif rng.random() < 0.8:
                    ops.append(['adv', rng.randint(1, 12), G.timestep(rng, n, v, L, 'any')])
                q = [['sum'], ['std'], ['sum']]
                rng.shuffle(q)
                ops += [['dump']] + q[:rng.randint(1, 3)] + [['dump']]
            res.append(dict(kind='solver', solver=s, n=n, v=v, L=L, ops=ops, thr=rng.choice([1, 2, 4])))
    for s in S.ALL:      # most of the field in its last cells
        for n in G.LARGE3 + [[70, 50, 41]]:
            L, v = [1.0, 1.0, 1.0], [-1.0, -1.0, -1.0]
            ops = [['adv', rng.randint(2, 9) if n in G.LARGE3 else 14, 0.7 / G.rate(n, v, L)], ['dump'], ['sum'], ['std'], ['dump']]
            res.append(dict(kind='solver', solver=s, n=n, v=v, L=L, ops=ops, thr=rng.choice([1, 2, 4, 8])))
    for s in S.ALL:
        for _ in range(ctx.pick(5, 40)):
            res.append(dict(kind='cli', prog=s, nc=rng.randint(1, 20), ns=rng.choice([0, 1, 2, 5, 20, 60]) if s in CLI_STD else rng.choice([1, 2, 5, 20]),
                            std=s in CLI_STD and rng.random() < 0.8, thr=rng.choice([1, 2, 4, 8])))
    for k in range(ctx.pick(110, 1200)):
        N = F.pick_n(rng, k, 0.02)
        p = F.problem(rng, N, cells=1500)
        nd = len(p['n'])
        ops = [F.new_op(0, p)]
        for q in range(rng.randint(1, 4)):
            r = rng.random() * (1 if q else 0.7)     # the data are set first
            ops.append(F.idx_op(rng, 0, nd) if r < 0.4 else F.pos_op(rng, 0, nd) if r < 0.7 else ['apply', 0] if r < 0.9 else ['copy', 0])
            if rng.random() < 0.5:
                ops.append(['apply', 0])
            ops += [['in', 0], [rng.choice(['sumin', 'sumout']), 0], [rng.choice(['sumin', 'sumout']), 0], ['in', 0], ['out', 0]]
        res.append(dict(kind='filter', N=N, seed=rng.randrange(1 << 30), p=p, ops=ops))
    for _ in range(ctx.pick(24, 200)):   # the programs' own reports
        nc = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12])
        N = rng.choice([p for p in range(1, 28) if G.decomps([nc] * 3, p)])
        res.append(dict(kind='mpi', N=N, nc=nc, ns=rng.randint(1, 9), seed=rng.randrange(1 << 30)))
    for _ in range(ctx.pick(5, 30)):
        N = rng.choice([1, 2, 3, 4, 6, 8])
        n = F.grid(rng, N, 3, 600)
        v, L = G.velocity(rng, 3), G.lengths(rng, 3)
        ops = []
        for _ in range(3):
            ops += [['adv', rng.randint(1, 5), G.timestep(rng, n, v, L, 'any')], ['dump'], ['sum'], ['dump']]
        res.append(dict(kind='pympi', N=N, n=n, v=v, L=L, ops=ops))
    return res


def judge_records(ops, recs):
    """Every sum and spread against the field dumped around it."""
    it = iter(recs)
    cur = None
    for op in ops:
        if op[0] == 'adv':
            cur = None
            continue
        r = next(it, None)
        if r is None or r[0] != op[0]:
            return 'records are missing'
        x = r[1]
        if op[0] == 'dump':
            if cur is not None and cur.tobytes() != x.tobytes():
                return 'asking for a sum or a spread changes the field'
            cur = x
            continue
        if cur is None:
            continue
        with np.errstate(all='ignore'):
            if not np.isfinite(cur).all() or np.abs(cur).max() > 1e150:
                continue
            if op[0] == 'sum':
                want = float(np.sum(cur))
                tol = 4 * R.EPS * (cur.size + 8) * float(np.sum(np.abs(cur))) + R.TINY
                if not abs(x[0] - want) <= tol:
                    return f'the check sum is {x[0]!r}, the field adds up to {want!r}'
            elif x[0] != -1.0:
                want = float(np.sqrt(np.mean((cur - np.mean(cur)) ** 2)))
                m = float(np.abs(cur).max())
                tol = 16 * R.EPS * (cur.size + 8) * want + 1e-6 * R.EPS * m + 64 * R.EPS * np.abs(np.mean(cur)) * cur.size ** 0.5 + R.TINY
                if not abs(x[0] - want) <= tol:
                    return f'the spread is {x[0]!r}, the field has {want!r}'
    return None


def run(ctx, cases):
    ctx.rule = ('a case is one run in which sums and spreads are asked for; each is compared with the field recorded around it, and the fields before '
                'and after are compared bit for bit; non-trivial: the field is not the initial one')
    ctx.assumptions = ['simMPI executes MPI calls with the semantics of the MPI standard']
    kinds = {c['kind'] for c in cases}
    names = sorted({c['solver'] for c in cases if c['kind'] == 'solver'})
    exes = S.build_many(ctx, names)
    pn = sorted({c['prog'] for c in cases if c['kind'] == 'cli'})
    progs = dict(zip(pn, pmap(lambda n: S.build_program(ctx, n), pn)))
    sim = P.build(ctx, ['upwindMpi'] if 'mpi' in kinds else [], san=False, filt='filter' in kinds)
    jobs = [(s, ch) for s in names for ch in S.chunks([c for c in cases if c.get('solver') == s], 2)]

    def solver(job):
        s, ch = job
        return S.run_cases(ctx, exes[s], list(enumerate(ch)), timeout=240)
    for (s, ch), (recs, failure, _) in zip(jobs, pmap(solver, jobs)):
        for i, c in enumerate(ch):
            bad = None
            if failure and failure[0] == i:
                bad = f'ended abnormally ({failure[1].brief()})'
            elif i not in recs:
                break
            bad = bad or judge_records(c['ops'], recs[i])
            ctx.case((s, json.dumps(c)), nontrivial=any(o[0] == 'adv' for o in c['ops']), sample={'solver': s, 'n': c['n'], 'ops': c['ops']})
            ctx.count('solver reports', sum(o[0] in ('sum', 'std') for o in c['ops']))
            if bad:
                ctx.fail(f'{s}: {bad} (n={c["n"]} v={c["v"]})', c)
        if failure and failure[0] is None:
            ctx.fail(f'{s}: ended abnormally ({failure[1].brief()})', ch[0])

    def other(c):
        d = ctx.dir('o')
        if c['kind'] == 'cli':
            fort = c['prog'].endswith(('.F90', '.py'))
            a = [c['nc'], c['ns']] if fort else ['-numCells', c['nc'], '-numSteps', c['ns']] + (['-std'] if c['std'] else [])
            r = run_cmd(progs[c['prog']] + [str(x) for x in a], cwd=d, env=base_env(OMP_NUM_THREADS=c['thr'], PYTHONPATH=f'{REPO}/upwind/python'))
            if r.rc != 0 or r.timeout:
                return f'ended abnormally ({r.brief()})'
            m = R.Adv([c['nc']] * 3, [1.0] * 3, [1.0] * 3)
            m.advect(c['ns'], 0.1 / c['nc'])
            t = re.findall(r'(?im)^\s*check sum:\s*(\S+)', r.out)
            if len(t) != 1 or not abs(float(t[0]) - 1.0) <= 2e-5:
                return f'the check sum is reported as {t}'
            if c['std']:
                t = re.findall(r'(?m)^std\s*:\s*(\S+)', r.out)
                w = float(np.std(m.f))
                if len(t) != 1 or not abs(float(t[0]) - w) <= 2e-5 * w + 1e-12:
                    return f'the spread is reported as {t}, the field has {w!r}'
            return None
        if c['kind'] == 'filter':
            s = F.run_ops(ctx, sim['filter'], c['ops'], c['N'], c['seed'])
            bad = F.check_history(ctx, s, c['ops'], {0: c['p']}, c['N'])
            if not bad:
                bad = judge_filter(c, s)
            shutil.rmtree(s.dir, ignore_errors=True)
            return bad
        if c['kind'] == 'mpi':
            s = run_sim(ctx, sim['upwindMpi'], ['-numCells', c['nc'], '-numSteps', c['ns']], c['N'], c['seed'])
            if s.viols:
                return s.viols[0] + sim_detail(s)
            out = s.out(0)
            it = re.findall(r'(?m)^iter\s+(\d+)\s+check sum\s+in/out = (\S+) / (\S+)', out)
            t = re.findall(r'(?im)^\s*check sum:\s*(\S+)', out)
            if len(it) != c['ns'] or any(abs(float(a) - 1) > 2e-5 or abs(float(b) - 1) > 2e-5 for _, a, b in it):
                return f'the sums of the steps are reported as {it[:3]}'
            if len(t) != 1 or abs(float(t[0]) - 1) > 2e-5:
                return f'the check sum is reported as {t}'
            return None
        with open(f'{d}/cases.txt', 'w') as f:
            for l in S.case_lines(0, c):
                f.write(l + '\n')
            f.write('end\n')
        r = run_cmd(mpirun(c['N']) + [VENV_PY, f'{VERIF}/harness/pympi_driver.py', f'{d}/cases.txt'], cwd=d,
                    env=base_env(VF_OUT=d, VF_PYDIR=f'{REPO}/upwind/python'), timeout=120)
        if r.rc != 0 or r.timeout:
            return f'ended abnormally ({r.brief()})'
        return judge_records(c['ops'], [(t, x) for t, _, x in read_recs(f'{d}/f.0.bin') if t != 'case'])
    rest = [c for c in cases if c['kind'] != 'solver']
    for c, bad in zip(rest, pmap(other, rest)):
        ctx.case(json.dumps(c, sort_keys=True), sample={k: c[k] for k in ('kind', 'prog', 'N', 'nc', 'ns') if k in c})
        ctx.count(f'{c["kind"]} runs')
        if bad:
            ctx.fail(f'{c.get("prog", c["kind"])}: {bad} ' + ' '.join(f'{k}={c[k]}' for k in ('N', 'nc', 'ns', 'n') if k in c), c)


def judge_filter(c, s):
    """Sums against the printed data, exactly as they are; printing and summing
    leave the input as it was."""
    i = 1
    last = None
    data = {}
    for op in c['ops'][1:]:
        if op[0] in ('setpos', 'setidx', 'apply', 'copy'):
            last = None
            data = {}
        if op[0] in ('in', 'out'):
            g, bad = F.assemble(c['p']['n'], [r and r[2] for r in F.at(s, i)])
            if bad:
                return bad
            if op[0] == 'in':
                if last is not None and last.tobytes() != g.tobytes():
                    return 'asking for a sum changes the input data'
                last = g
        if op[0] == 'sumin' and last is not None:
            v = F.at(s, i)[0][2][0]
            if not abs(v - last.sum()) <= 4 * R.EPS * (last.size + c['N']) * np.abs(last).sum() + R.TINY:
                return f'the input sum is {v!r}, the data add up to {last.sum()!r}'
        if op[0] in F.RECORDS:
            i += 1
    return None
