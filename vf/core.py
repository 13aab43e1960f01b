"""Shared machinery of the checks: building, running, judging, reporting."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, shutil, signal, struct, subprocess, sys, tempfile, time
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 1)
VENV_PY = '/opt/vp/venv/bin/python'

CXX = 'g++'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


class CheckError(Exception):
    """The check cannot give an answer (exit 2)."""


def base_env(**kw):
    e = {k: os.environ[k] for k in ('HOME', 'TMPDIR', 'LD_LIBRARY_PATH') if k in os.environ}
    e.update({
        'PATH': '/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'LANG': 'C', 'LC_ALL': 'C', 'PYTHONDONTWRITEBYTECODE': '1',
        'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
        'OMPI_MCA_rmaps_base_oversubscribe': 'yes', 'OMPI_MCA_hwloc_base_binding_policy': 'none',
        'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_btl_vader_single_copy_mechanism': 'none',
        'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_osc': 'pt2pt', 'MPI4PY_RC_THREAD_LEVEL': 'single',
        'OMPI_MCA_plm': 'isolated', 'OMPI_MCA_mpi_yield_when_idle': '1', 'OPENBLAS_NUM_THREADS': '1',
        'ASAN_OPTIONS': 'detect_leaks=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=1',
        'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
        'OMP_WAIT_POLICY': 'passive',
    })
    e.update({k: str(v) for k, v in kw.items()})
    return e


class Res:
    def __init__(self, rc, out, err, timeout=False, wall=0.0):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    def brief(self):
        t = (self.err or self.out).strip().splitlines()
        key = [l for l in t if 'ERROR' in l or 'error' in l or 'WARNING: ThreadS' in l or 'Assertion' in l]
        return ('timeout; ' if self.timeout else f'exit {self.rc}; ') + ' | '.join((key[:2] + t[:4])[:5])[:400]


# Open MPI failing to start a job (not the job failing)
MPI_START = ('session_dir.c', 'unable to create the desired directory', 'orte_init failed', 'orte_ess_base',
             'ORTE was unable to reliably start', 'pmix_server_init', 'opal_init failed', 'ess_hnp', 'unable to launch',
             'shared memory initialization', 'unable to create a shared memory', 'Unable to start a daemon')


def run(cmd, cwd=None, env=None, timeout=120, stdin=None, retry=True):
    """Run a command in its own process group. A timeout is confirmed by a
    second run with twice the time before it is reported. An Open MPI job gets
    a session directory of its own; when mpirun itself cannot start the job,
    it is started again, and if that never works there is no answer."""
    if cmd[0] != 'mpirun':
        return run1(cmd, cwd, env, timeout, stdin, retry)
    for attempt in range(5):
        sd = tempfile.mkdtemp(prefix='vo', dir='/tmp')
        try:
            e = dict(env or base_env())
            e.update({'OMPI_MCA_orte_tmpdir_base': sd, 'TMPDIR': sd})
            r = run1(cmd, cwd, e, timeout, stdin, retry)
        finally:
            shutil.rmtree(sd, ignore_errors=True)
        if r.rc == 0 or not any(m in r.err or m in r.out for m in MPI_START):
            return r
        time.sleep(0.5 * (attempt + 1))
    raise CheckError('mpirun cannot start a job: ' + r.err[-800:])


def run1(cmd, cwd, env, timeout, stdin, retry):
    for attempt in (0, 1):
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=cwd, env=env or base_env(), stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, e = p.communicate(stdin, timeout=timeout * (attempt + 1))
            return Res(p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), False, time.time() - t0)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            o, e = p.communicate()
            r = Res(-9, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), True, time.time() - t0)
            if not retry:
                return r
    return r


def pmap(fn, items, workers=NCPU):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


class Ctx:
    def __init__(self, pid, tier, seed, level='exploration'):
        self.id, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rng = random.Random(f'{pid}:{seed}')
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'vf-{pid}-')
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.viols = []
        self.known_hit = {}
        self.extra = {}
        self.counts = {}
        self.rule = ''
        self.assumptions = []
        self.known = load_known(pid)
        self.ndir = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def dir(self, name=None):
        self.ndir += 1
        d = os.path.join(self.scratch, f'{name or "d"}{self.ndir}')
        os.makedirs(d)
        return d

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def case(self, key, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            self.keys.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def fail(self, what, case=None):
        for k in self.known:
            if k['match'] and all(m in (what + ' ' + json.dumps(case, default=str)) for m in k['match']):
                self.known_hit.setdefault(k['line'], what)
                return
        self.viols.append((what, case))

    # ------------------------------------------------------------- reporting
    def finish(self):
        for l in self.known:
            if l['match'] and l['line'] in self.known_hit:
                print(f'KNOWN-FINDING: property={self.id} {l["text"]}')
        ev = {
            'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': {'evaluations': self.evals, 'distinct_nontrivial': len(self.keys), 'rule': self.rule,
                         'samples': self.samples or ['(none)'], 'observed': self.counts, **self.extra},
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viols),
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f'{self.id}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        if self.viols:
            rd = os.path.join(d, 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, (what, case) in enumerate(self.viols[:5]):
                p = os.path.join(rd, f'{self.id}-{self.tier}-{self.seed}-{i}.json')
                with open(p, 'w') as f:
                    json.dump({'property': self.id, 'what': what, 'seed': self.seed, 'tier': self.tier, 'case': case,
                               'how': f'python3 checks/run.py {self.id} --tier {self.tier} --seed {self.seed} --replay {p}'}, f, indent=1, default=str)
                print(f'# {what}')
                print(f'VIOLATION property={self.id} replay={p}')
            if len(self.viols) > 5:
                print(f'# ... and {len(self.viols) - 5} more')
            rc = 1
        else:
            print(f'{self.id}: held on {self.evals} evaluations, {len(self.keys)} distinct non-trivial ({time.time() - self.t0:.1f} s)')
            if self.evals == 0:
                raise CheckError('nothing was evaluated')
        return rc

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(pid):
    """known_findings.txt: 'known: property=<id> match="a" match="b" <text>'
    suppresses a violation whose text contains all match strings;
    'fixed: ...' lines are a record only."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        import re
        for line in open(p):
            line = line.strip()
            if line.startswith('known:') and f'property={pid} ' in line:
                res.append({'line': line, 'match': re.findall(r'match="([^"]*)"', line),
                            'text': re.sub(r'match="[^"]*"\s*', '', line.split(f'property={pid} ', 1)[1])})
    return res


# ------------------------------------------------------------------ building
def compile_all(jobs):
    """jobs: list of (cmd list). Compiled in parallel; failure -> CheckError."""
    def one(cmd):
        r = run(cmd, timeout=400, retry=False)
        if r.rc != 0:
            raise CheckError('build failed: ' + ' '.join(cmd) + '\n' + (r.err or r.out)[-3000:])
    pmap(one, jobs)


def lib_sources(mpi=True):
    s = sorted(glob.glob(f'{REPO}/cxx/*.cpp') + glob.glob(f'{REPO}/cxx/*.cc') + glob.glob(f'{REPO}/cxx/*.cxx'))
    if not mpi:
        keep = []
        for f in s:
            t = open(f, errors='replace').read()
            if 'Filter.h' in t or 'mpi.h' in t:
                continue
            keep.append(f)
        s = keep
    return s


class Builder:
    """Collects translation units and links, then builds everything at once."""

    def __init__(self, ctx, name='b'):
        self.d = ctx.dir(name)
        self.objs = {}
        self.jobs = []
        self.links = []

    def obj(self, src, flags, comp=CXX):
        key = (src, tuple(flags), comp)
        if key not in self.objs:
            o = os.path.join(self.d, f'o{len(self.objs)}_{os.path.basename(src)}.o')
            self.objs[key] = o
            self.jobs.append([comp] + list(flags) + ['-c', src, '-o', o])
        return self.objs[key]

    def link(self, name, objs, flags, comp=CXX):
        exe = os.path.join(self.d, name)
        self.links.append([comp] + list(objs) + ['-o', exe] + list(flags))
        return exe

    def go(self):
        compile_all(self.jobs)
        compile_all(self.links)


CXXSTD = ['-std=c++17', '-g', '-w']


def sim_flags(san=True, opt='-O1', extra=()):
    f = CXXSTD + [opt, f'-I{VERIF}/simmpi', f'-I{REPO}/cxx'] + list(extra)
    if san:
        f += SAN + ['-D_GLIBCXX_ASSERTIONS']
    return f


def build_sim(b, name, src, san=True, opt='-O1', extra=()):
    """Link src (whose main becomes prog_main) with the library and simMPI."""
    fl = sim_flags(san, opt, extra)
    objs = [b.obj(s, fl) for s in lib_sources()]
    objs.append(b.obj(f'{VERIF}/simmpi/simmpi.cc', sim_flags(san, '-O1' if opt == '-O0' else opt, extra)))
    objs.append(b.obj(src, fl + ['-Dmain=prog_main']))
    return b.link(name, objs, (SAN if san else []) + ['-lpthread'])


# ------------------------------------------------------------- binary records
def read_recs(path):
    res = []
    with open(path, 'rb') as f:
        data = f.read()
    p = 0
    while p + 24 <= len(data):
        tag = data[p:p + 8].rstrip(b'\0 ').decode()
        aux, n = struct.unpack_from('<dq', data, p + 8)
        p += 24
        if p + 8 * n > len(data):
            break
        res.append((tag, aux, np.frombuffer(data, dtype='<f8', count=n, offset=p)))
        p += 8 * n
    return res


class Sim:
    pass


def run_sim(ctx, exe, args, n, seed, xfer='random', cwd=None, outdir=None, env=None, hang=60, timeout=300, wrapper=(), keep_trace=False):
    d = outdir or ctx.dir('sim')
    e = base_env(SIMMPI_N=n, SIMMPI_SEED=seed, SIMMPI_XFER=xfer, SIMMPI_OUT=d, SIMMPI_SUMMARY=f'{d}/summary.json',
                 SIMMPI_HANG=hang, VF_OUT=d)
    if keep_trace:
        e['SIMMPI_TRACE'] = f'{d}/trace.txt'
    e.update(env or {})
    r = run(list(wrapper) + [exe] + [str(a) for a in args], cwd=cwd or d, env=e, timeout=timeout)
    s = Sim()
    s.res, s.dir, s.n = r, d, n
    s.viols = []
    s.summary = {'counts': {}}
    if r.timeout:
        s.viols = [f'hang: the run does not finish within {timeout} s']
        return s
    if r.rc not in (0, 3) or not os.path.exists(f'{d}/summary.json'):
        raise CheckError(f'simMPI failed (exit {r.rc}): {r.err[-1500:]}')
    s.summary = json.load(open(f'{d}/summary.json'))
    s.viols = s.summary['violations']
    for v in s.viols:
        if v.startswith('internal'):
            raise CheckError('simMPI: ' + v)
    s.out = lambda k: open(f'{d}/rank.{k}.out', errors='replace').read()
    s.err = lambda k: open(f'{d}/rank.{k}.err', errors='replace').read()
    return s


def sim_detail(s):
    """Text of the sanitizer report behind a crash, if there is one."""
    t = ''
    for k in range(s.n):
        try:
            e = open(f'{s.dir}/rank.{k}.err', errors='replace').read()
        except OSError:
            continue
        for l in e.splitlines():
            if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'terminate called' in l:
                t += f' [rank {k}] {l.strip()[:200]}'
                break
        if len(t) > 300:
            break
    return t
