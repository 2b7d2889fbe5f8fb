"""Shared machinery: builds the compiler from /repo, compiles and runs Clara programs under control,
collects verdicts and writes the evidence file."""
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
import multiprocessing as mp

REPO = os.environ.get('CLARA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GOENV = dict(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
EVIDENCE = os.environ.get('CLARA_EVIDENCE', os.path.join(VERIF, 'evidence'))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def base_env():
    env = dict(os.environ)
    env.update(GOENV)
    env.setdefault('HOME', '/root')
    env.setdefault('GOCACHE', os.path.join(env['HOME'], '.cache', 'go-build'))
    env.pop('GOOS', None); env.pop('GOARCH', None)
    return env


class Build:
    """A compiler built from the current tree, a copy of the install directory and a gcc wrapper."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.clarac = os.path.join(scratch, 'clarac')
        self.install = os.path.join(scratch, 'install')
        self.bin = os.path.join(scratch, 'bin')
        self.gcclog = os.path.join(scratch, 'gcc.log')

    def make(self, extra_c=(), race=False):
        cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', self.clarac, '.']
        r = subprocess.run(cmd, cwd=REPO, env=base_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise Inconclusive('compiler does not build:\n' + r.stdout + r.stderr)
        shutil.copytree(os.path.join(REPO, 'install'), self.install)
        for c in extra_c:
            shutil.copy(os.path.join(VERIF, 'c', c), os.path.join(self.install, 'init', c))
        os.makedirs(self.bin)
        init = os.path.join(self.install, 'init')
        objs = os.path.join(self.scratch, 'objs')
        os.makedirs(objs)
        for f in sorted(os.listdir(init)):
            if f.endswith('.c'):
                o = os.path.join(objs, f[:-2] + '.o')
                r = subprocess.run(['gcc', '-fno-pie', '-c', '-o', o, os.path.join(init, f)], capture_output=True, text=True)
                if r.returncode != 0:
                    raise Inconclusive('runtime does not build:\n' + r.stderr)
        # The wrapper replaces the (already compiled) C files of the runtime by their objects and adds
        # link flags; everything else is passed on as it is.
        with open(os.path.join(self.bin, 'gcc'), 'w') as f:
            f.write('''#!/bin/bash
args=()
for a in "$@"; do
  case "$a" in
    %s/*.c) o="%s/$(basename "${a%%.c}").o"; if [ -f "$o" ]; then args+=("$o"); else args+=("$a"); fi;;
    *) args+=("$a");;
  esac
done
exec /usr/bin/gcc "${args[@]}" $CLARA_MON_LDFLAGS
''' % (init, objs))
        os.chmod(os.path.join(self.bin, 'gcc'), 0o755)
        return self


class Inconclusive(Exception):
    pass


class CompileResult:
    __slots__ = ('rc', 'out', 'exe', 'signal', 'timeout')


class RunResult:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'cpu')

    def __repr__(self):
        return 'rc=%s timeout=%s out=%r err=%r' % (self.rc, self.timeout, self.out[-400:], self.err[-400:])


def _limits(cpu, mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run_proc(cmd, env=None, cwd=None, stdin=None, cpu=20, wall=240, mem=None, maxout=64 << 20):
    """Runs a command with a CPU limit. The wall clock watchdog is only a safety net."""
    r = RunResult()
    r.timeout = None
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        def pre():
            _limits(cpu, mem)()
            resource.setrlimit(resource.RLIMIT_FSIZE, (maxout, maxout))
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=stdin if stdin is not None else subprocess.DEVNULL,
                             stdout=fo, stderr=fe, preexec_fn=pre, start_new_session=True)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            r.timeout = 'wall'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = p.wait()
        if rc == -signal.SIGXCPU or rc == -signal.SIGKILL and r.timeout is None:
            r.timeout = 'cpu' if rc == -signal.SIGXCPU else 'killed'
        if rc == -signal.SIGXFSZ:
            r.timeout = 'output'
        fo.seek(0); fe.seek(0)
        r.rc, r.out, r.err = rc, fo.read(), fe.read()
    return r


RUN_ENV = {'A': '1'}


class Compiler:
    def __init__(self, build, ldflags='', install=None):
        self.b, self.ldflags = build, ldflags
        self.install = install or build.install

    def compile(self, path, outdir, opts=(), tmpdir=None, cpu=60, wall=300, mem=None):
        env = dict(os.environ)
        env['PATH'] = self.b.bin + ':' + env.get('PATH', '/usr/bin:/bin')
        env['TMPDIR'] = tmpdir or outdir
        env['CLARA_MON_LDFLAGS'] = self.ldflags
        r = run_proc([self.b.clarac, '-install', self.install, '-prog', path, '-out', outdir] + list(opts),
                     env=env, cpu=cpu, wall=wall, cwd=outdir, mem=mem, maxout=1 << 30)
        c = CompileResult()
        c.rc, c.timeout = r.rc, r.timeout
        c.out = r.out + r.err
        name = os.path.basename(path)
        name = name[:-6] if name.endswith('.clara') else name
        exe = os.path.join(outdir, name)
        c.exe = exe if os.path.isfile(exe) and os.access(exe, os.X_OK) else None
        return c

    def compile_src(self, src, d, name='p', opts=(), **kw):
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, name + '.clara')
        with open(path, 'wb') as f:
            f.write(src if isinstance(src, bytes) else src.encode('utf-8', 'surrogateescape'))
        out = os.path.join(d, 'o')
        os.makedirs(out, exist_ok=True)
        return self.compile(path, out, opts, **kw)


def run_exe(exe, args=(), env=None, **kw):
    return run_proc([exe] + list(args), env=RUN_ENV if env is None else env, **kw)


ANSI = re.compile(rb'\x1b\[[0-9;]*m')


def strip_ansi(b):
    return ANSI.sub(b'', b)


def error_lines(out):
    """Error entries (' - ...') printed by the compiler."""
    out = strip_ansi(out)
    i = out.rfind(b'\nErrors\n')
    if i < 0:
        return []
    res = []
    for l in out[i + 8:].split(b'\n'):
        if l.startswith(b' - '):
            res.append(l[3:].decode('utf-8', 'replace'))
    return res


def crashed(c):
    """The compiler itself crashed (Go panic, fatal error or signal)."""
    return c.rc not in (0, 1) or b'goroutine ' in c.out and b'panic' in c.out or b'fatal error:' in c.out


# ----------------------------------------------------------------------------------------------------------------------

class Check:
    """One run of one check: collects cases, violations and evidence."""

    def __init__(self, prop, level='exploration'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='clara-%s-' % prop)
        self.violations = []
        self.known_hits = []
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.coverage = {}
        self.assumptions = []
        self.inconclusive = []
        self.replay_dir = os.path.join(EVIDENCE, 'replay', prop)
        self.rule = ''

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self, **kw):
        d = os.path.join(self.scratch, 'build%d' % len(os.listdir(self.scratch)))
        os.makedirs(d)
        return Build(d).make(**kw)

    def note(self, key, k=1):
        self.coverage[key] = self.coverage.get(key, 0) + k

    def saw(self, case, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(case if isinstance(case, (str, int)) else hashlib.sha1(repr(case).encode()).hexdigest())

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, files=None):
        """Records a violation; files: {name: content} saved for replay."""
        i = len(self.violations)
        d = os.path.join(self.replay_dir, '%d' % i)
        if i < 20:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'what.txt'), 'w') as f:
                f.write(what + '\n')
            for n, c in (files or {}).items():
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(c if isinstance(c, bytes) else c.encode('utf-8', 'surrogateescape'))
        self.violations.append((what, d))

    def known(self, key, what):
        """True if the finding is listed in the known findings file."""
        for line in open(os.path.join(VERIF, 'known-findings.txt'), encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % self.prop) and ('[%s]' % key) in line:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print('KNOWN-FINDING: property=%s [%s] %s' % (self.prop, key, what))
                return True
        return False

    def finish(self):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples)
        cov.update(self.coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(EVIDENCE, exist_ok=True)
        p = os.path.join(EVIDENCE, self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            seen = set()
            for what, d in self.violations[:20]:
                print('violation: ' + what.split('\n')[0][:300])
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][1]))
            return 1
        if self.inconclusive:
            for i in self.inconclusive[:10]:
                print('INCONCLUSIVE: ' + i[:600])
            return 2
        if self.evaluations == 0 or not self.distinct:
            print('INCONCLUSIVE: nothing observed')
            return 2
        print('held: property=%s evaluations=%d distinct=%d wall=%.1fs' % (self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0


_JOBFN = None
_CTX = None


def _call(x):
    try:
        return _JOBFN(_CTX, x)
    except Exception as e:  # harness error: reported as inconclusive, never as a violation
        import traceback
        return {'harness_error': traceback.format_exc()}


def pmap(fn, ctx, items, workers=None, chunksize=1):
    """Parallel map over forked workers. fn(ctx, item)."""
    global _JOBFN, _CTX
    _JOBFN, _CTX = fn, ctx
    items = list(items)
    if not items:
        return []
    with mp.get_context('fork').Pool(min(workers or WORKERS, len(items))) as pool:
        return pool.map(_call, items, chunksize)


def rng_for(*parts):
    h = hashlib.sha256(('|'.join(str(p) for p in parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def main(prop, fn, rule='', level='exploration'):
    chk = Check(prop, level)
    chk.rule = rule
    shutil.rmtree(chk.replay_dir, ignore_errors=True)
    try:
        fn(chk)
        rc = chk.finish()
    except Inconclusive as e:
        shutil.rmtree(chk.scratch, ignore_errors=True)
        print('INCONCLUSIVE: %s' % e)
        rc = 2
    except BaseException:
        shutil.rmtree(chk.scratch, ignore_errors=True)
        raise
    sys.stdout.flush()
    return rc
