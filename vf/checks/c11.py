"""C11: command-line options are parsed to exactly the values given."""
import re
from ..core import *
from ..core import run as run_cmd

WORDS = ['numCells', 'num', 'n', 'numDims', 'numSteps', 'numStep', 'v', 'vtk', 'vtkFile', 'std', 'stdd', 'domain', 'domainLength', 'x', 'xmin', 'xmax', 'a', 'ab', 'abc', 'ABC',
         'velocity', 'timeStep', 'time', 'h2', 'help', 'o', 'out', 'output', 'i', 'in', 'e', 'E', 'inf', 'nan', 'checksum', '-long', '-', '_u', 'a-b', 'a=b', 'n.m', 'é']
TEXT = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;_+=/%#@()[]{}"\'\\*?!~<>|&$^'


def text(rng, k=24):
    return ''.join(rng.choice(TEXT) for _ in range(rng.randint(0, k)))


def long(rng, k):
    return rng.choice([100, 300, 1200, 5000]) if rng.random() < 0.06 else k


def name(rng, used):
    while True:
        r = rng.random()
        if r < 0.5:
            s = '-' + rng.choice(WORDS)
        elif used and r < 0.85:     # shares a prefix with another one
            b = rng.choice(sorted(used))
            s = b[:rng.randint(2, len(b))] + rng.choice(['', 's', '1', '2', 'X', '-x', '_'])
        else:
            s = '-' + rng.choice('abcdefghijklmnopqrstuvwxyzXYZ_') + ''.join(rng.choice('abcdeXYZ012_-') for _ in range(rng.randint(0, 8) if rng.random() < 0.95 else rng.randint(20, 300)))
        if s not in used and s != '-h' and len(s) >= 2 and not s[1].isdigit():
            return s


def num_d(rng):
    r = rng.random()
    if r < 0.3:
        x = repr(rng.uniform(-1, 1) * 10 ** rng.randint(-300, 300))
    elif r < 0.5:
        x = str(rng.randint(-10 ** rng.randint(1, 20), 10 ** rng.randint(1, 20)))
    elif r < 0.6:
        x = rng.choice(['0', '-0', '1.', '.5', '+2.5', '00012.50', '1E5', '1e+05', '-1.e-7', '4.9e-324', '1.7976931348623157e308', '0.1', '2.2250738585072014e-308', '-0.0'])
    else:
        x = f'{rng.uniform(-100, 100):.{rng.randint(0, 12)}f}'
    return x


def num_i(rng):
    r = rng.random()
    if r < 0.15:
        return rng.choice(['2147483647', '-2147483648', '0', '-1', '+17', '0012', '-0'])
    return str(rng.randint(-10 ** (k := rng.randint(1, 9)), 10 ** k))


def str_v(rng):
    while True:
        r = rng.random()
        s = '' if r < 0.05 else rng.choice(['-', '-3', '-7x', '12', '1.5', 'up.vtk', 'a b c', '--'[:1], '0']) if r < 0.25 else text(rng, rng.choice([6, 30, 300]))
        if not (len(s) >= 2 and s[0] == '-' and not s[1].isdigit()):
            return s


def cases(ctx):
    rng = ctx.rng
    return [dict(seed=rng.randrange(1 << 40), count=400) for _ in range(ctx.pick(24, 600))]


def spec(rng):
    """One parser and one command line."""
    used = {}
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12, 12, 40] if rng.random() < 0.99 else [90, 180])):
        k = rng.choice('disb')
        used[name(rng, used)] = k
    opts = [dict(k=k, name=n, default=num_d(rng) if k == 'd' else num_i(rng) if k == 'i' else text(rng) if k == 's' else str(rng.randrange(2)), help=text(rng, long(rng, 40)))
            for n, k in used.items()]
    args = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 14, 14, 60])):
        r = rng.random()
        if r < 0.12 or not opts:      # a token that is neither an option nor a value
            args.append(str_v(rng))
            continue
        if r < 0.16:
            args.append('-h')
            continue
        o = rng.choice(opts)
        args.append(o['name'])
        if o['k'] != 'b':
            args.append(num_d(rng) if o['k'] == 'd' else num_i(rng) if o['k'] == 'i' else str_v(rng))
    if opts and rng.random() < 0.05:
        o = rng.choice([o for o in opts])
        args.append(o['name'])        # a last option without a value
    bad = []
    if rng.random() < 0.2:
        for _ in range(rng.choice([1, 1, 2])):
            b = name(rng, set(used))
            if rng.random() < 0.3 and opts:
                b = rng.choice(opts)['name'] + rng.choice(['q', '=3', '3', ' '])
            if b in used or b == '-h':
                continue
            bad.append(b)
            args.insert(rng.randint(0, len(args)), b)
    rng.shuffle(opts)
    return dict(opts=opts, args=args, bad=bad, purpose=text(rng, long(rng, 40)), notes=[text(rng, long(rng, 30)) for _ in range(rng.choice([0, 0, 1, 1, 2, 6]))],
                exec=rng.choice(['prog', './prog', '/a b/prog', '-prog', rng.choice(opts)['name'] if opts else '', '-h']), help_at=rng.choice(['before', 'after', 'both']))


def hx(s):
    return s.encode('utf8').hex() or '.'


def model(sp):
    v = {o['name']: float(o['default']) if o['k'] == 'd' else int(o['default']) if o['k'] == 'i' else o['default'] if o['k'] == 's' else o['default'] == '1' for o in sp['opts']}
    kind = {o['name']: o['k'] for o in sp['opts']}
    v['-h'] = False
    kind['-h'] = 'b'
    i, a = 0, [] if sp['bad'] else sp['args']
    while i < len(a):
        k = kind.get(a[i])
        if k == 'b':
            v[a[i]] = not v[a[i]]
        elif k and i + 1 < len(a):
            t = a[i + 1]
            v[a[i]] = float(t) if k == 'd' else int(t) if k == 'i' else t
            i += 1
        i += 1
    return v, kind


def script(i, sp):
    yield f'case {i}'
    for o in sp['opts']:
        yield f'{o["k"]} {hx(o["name"])} {hx(o["default"])} {hx(o["help"])}'
    yield 'purpose ' + hx(sp['purpose'])
    for n in sp['notes']:
        yield 'note ' + hx(n)
    if sp['help_at'] != 'after':
        yield 'help'
    yield f'parse {len(sp["args"]) + 1} ' + ' '.join(hx(a) for a in [sp['exec']] + sp['args'])
    v, kind = model(sp)
    for n in kind:
        yield f'get {kind[n]} {hx(n)}'
    if sp['help_at'] != 'before':
        yield 'help'


def unhx(s):
    return '' if s == '.' else bytes.fromhex(s).decode('utf8', 'replace')


def judge(sp, replies):
    v, kind = model(sp)
    it = iter(replies)

    def shown(o, l):
        rest = l.split(o['name'], 1)[1].replace(o['help'], ' ', 1)
        if o['k'] == 's':
            return o['default'] in rest
        if o['k'] == 'b':
            return any(x in rest.lower() for x in (['1', 'true', 'on', 'yes'] if o['default'] == '1' else ['0', 'false', 'off', 'no']))
        want = float(o['default'])
        if abs(want) == float('inf'):
            return 'inf' in rest.lower()
        return any(abs(float(x) - want) <= (1e-5 * abs(want) if o['k'] == 'd' else 0) for x in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', rest))

    def help_ok(fresh):
        t = next(it)
        if t[0] != 'help':
            return 'no help'
        h = unhx(t[1])
        for o in sp['opts'] + [dict(name='-h', help='Print help.')]:
            if not any(o['name'] in l and o['help'] in l.split(o['name'], 1)[1] for l in h.splitlines()):
                return f'the help does not list {o["name"]!r} with its help string {o["help"]!r}: {h[:600]!r}'
            if fresh and 'k' in o and not any(o['name'] in l and o['help'] in l.split(o['name'], 1)[1] and shown(o, l) for l in h.splitlines()):
                return f'the help does not show the default {o["default"]!r} of {o["name"]!r}: {h[:600]!r}'
        for x in [sp['purpose']] + sp['notes']:
            if x not in h:
                return f'the help lacks {x!r}'
        return None
    if sp['help_at'] != 'after':
        e = help_ok(True)
        if e:
            return e
    t = next(it)
    ok, txt = t[1] == '1', unhx(t[2])
    if sp['bad']:
        if ok:
            return f'an undeclared option ({sp["bad"]}) is accepted'
        if not any(b in txt for b in sp['bad']):
            return f'the undeclared option {sp["bad"]} is not named: {txt!r}'
    else:
        if not ok:
            return f'a valid command line is rejected: {txt!r}'
    for n in kind:
        t = next(it)
        if t[0] != 'get':
            return 'no value'
        if sp['bad']:
            continue
        g = float.fromhex(t[1]) if kind[n] == 'd' else int(t[1]) if kind[n] == 'i' else unhx(t[1]) if kind[n] == 's' else t[1] == '1'
        if g != v[n]:
            return f'option {n!r} has the value {g!r} instead of {v[n]!r}'
    if sp['help_at'] != 'before':
        return help_ok(False)
    return None


def run(ctx, cases):
    ctx.rule = 'one evaluation is one parser with its declared options and one command line, checked against a model; distinct: option set and command line; non-trivial: at least one argument'
    ctx.assumptions = ['values of options are not themselves names of declared options; numbers are complete and in range', 'the C locale']
    b = Builder(ctx)
    fl = CXXSTD + ['-O1', f'-I{REPO}/cxx', '-D_GLIBCXX_ASSERTIONS'] + SAN
    objs = [b.obj(s, fl) for s in lib_sources(mpi=False)] + [b.obj(f'{VERIF}/harness/args_harness.cc', fl)]
    exe = b.link('args_harness', objs, SAN)
    b.go()

    def one(c):
        rng = random.Random(c['seed'])
        sps = [spec(rng) for _ in range(c['count'])]
        only = c.get('only')
        d = ctx.dir('a')
        with open(f'{d}/cases.txt', 'w') as f:
            for i, sp in enumerate(sps):
                if only is None or i == only:
                    f.writelines(l + '\n' for l in script(i, sp))
        r = run_cmd([exe, f'{d}/cases.txt', f'{d}/out.txt', f'{d}/cap.txt'], cwd=d, timeout=300)
        got, cur = {}, None
        for l in open(f'{d}/out.txt', errors='replace'):
            if not l.endswith('\n'):       # cut off by a crash
                break
            t = l.rstrip('\n').split(' ')
            if t[0] == 'case':
                cur = got.setdefault(int(t[1]), [])
            else:
                cur.append(t)
        res = []
        for i in sorted(got):
            try:
                e = judge(sps[i], got[i])
            except (StopIteration, IndexError, ValueError):
                e = f'ended abnormally ({r.brief()})'
            res.append((i, sps[i], e))
        if (r.rc != 0 or r.timeout) and not any(e for _, _, e in res):
            raise CheckError('the harness failed: ' + r.brief())
        shutil.rmtree(d, ignore_errors=True)
        return res
    for c, res in zip(cases, pmap(one, cases)):
        for i, sp, e in res:
            ctx.case((json.dumps(sp['opts']), sp['args']), nontrivial=bool(sp['args']), sample={'options': [o['name'] for o in sp['opts']], 'args': sp['args']})
            ctx.count('rejected command lines' if sp['bad'] else 'accepted command lines')
            ctx.count('arguments', len(sp['args']))
            if e:
                ctx.fail(f'{e} | options {[(o["k"], o["name"], o["default"]) for o in sp["opts"]]} command line {sp["args"]}', dict(c, only=i))
