"""Compilations which run at the same time or after each other."""
import json, os, re, shutil, subprocess
from . import core, gen
from .c09 import HELPERS, BADX, BADS, BADD, TStmt

RULE = ('(a) in one process, built with the race detector: rounds of compilations of random valid and invalid programs which share names, run at the same time or one after another; every race report, and every executable '
        'whose trace or every error list which differs from that of a compilation alone is a violation; (b) many compiler processes at once, programs with the same file name, one shared temporary directory which holds decoy files; '
        '(c) file system monitor: snapshots of all directories and a system call trace of the compiler and its children, every file created, opened for writing, renamed or removed must be the output or an own temporary file. '
        'One evaluation is one compilation; distinct are (program, kind of surroundings)')


def snapshot(*dirs):
    out = {}
    for d in dirs:
        for root, ds, fs in os.walk(d):
            out[root] = 'dir'
            for f in fs:
                p = os.path.join(root, f)
                st = os.lstat(p)
                if os.path.islink(p):
                    out[p] = 'link ' + os.readlink(p)
                else:
                    with open(p, 'rb') as fh:
                        out[p] = (st.st_mode, st.st_mtime_ns, core.hashlib.sha1(fh.read()).hexdigest())
    return out


def diff(a, b):
    return ['created ' + p for p in sorted(set(b) - set(a))] + ['removed ' + p for p in sorted(set(a) - set(b))] + ['changed ' + p for p in sorted(a) if p in b and a[p] != b[p]]


def programs(chk, n):
    """Programs: dict(src, exp) with exp = expected output or None if invalid."""
    P = gen.Prof
    small = dict(tests=2, funcs=4, gfuncs=2, stmts=4, nodes=20)
    profs = [P(**small), P(w_closure=4, **small), P(generics=.8, **dict(small, gfuncs=4)), P(w_struct=3, w_enum=3, w_array=3, **small)]
    out = []
    for i in range(n):
        r = core.rng_for('C18', chk.seed, i)
        k = i % 8
        if k in (3, 6):
            text, kind = r.choice([(t, 'X') for t in BADX] + [(t, 'T') for t in BADS] + [(t, 'D') for t in BADD])
            src = HELPERS + {'X': 'fn main() {\n    hq := ' + text + '\n}\n', 'T': 'fn main() {\n' + TStmt(text).src(1) + '}\n', 'D': text + '\nfn main() {\n}\n'}[kind]
            out.append(dict(src=src, exp=None))
        elif k == 7:
            # the same names with different meanings
            v = r.randrange(6)
            src = ['fn f(a: int) int = a + %d\nstruct s {\n    x: int\n    y: string\n}\n', 'fn f(a: int) int {\n    g := fn(b: int) int = a + b\n    return g(%d)\n}\nstruct s {\n    y: string\n    x: int\n}\n',
                   'fn f«T»(a: T) T = a\nfn f(a: int, b: int) int = a + %d\nenum s {\n    A(x: int)\n    B()\n}\n', 'enum s {\n    B()\n    A(x: int)\n}\nfn f(a: int) int {\n    match A(a) {\n        case B(): return 0\n        case A(x): return x + %d\n    }\n}\n',
                   'struct s«T» {\n    x: T\n}\nfn f(a: int) int = S(a).x + %d\n', 'fn f(a: int) int = [a, a + 1, a + 2][1] + %d\n'][v]
            c = r.randrange(1000)
            exp = {0: 7 + c, 1: 7 + c, 2: 7, 3: 7 + c, 4: 7 + c, 5: 8 + c}[v]
            out.append(dict(src=(src % c) + 'fn main() {\n    println(f(7))\n}\n', exp=b'%d\n' % exp))
        else:
            p = gen.make(r, profs[i % 4], 20000)
            out.append(dict(src=p.source(), exp=p.expected_output()))
    return out


def run_and_compare(exe, exp):
    r = core.run_exe(exe)
    if r.timeout == 'wall':
        return None
    if r.out != exp or r.rc != 0:
        return 'the executable behaves differently (status %s): %r' % (r.rc, r.out[-200:])
    return None


def norm(errs, path):
    return sorted(e.replace(path, 'FILE') for e in errs)


def alone(ctx, it):
    i, p = it
    d = os.path.join(ctx['scratch'], 'alone%d' % i)
    c = ctx['comp'].compile_src(p['src'], d, 'p')
    path = os.path.join(d, 'p.clara')
    text = core.strip_ansi(c.out).decode('utf-8', 'replace')
    errs = text.split('\nErrors\n')[-1] if '\nErrors\n' in text else ''
    v = None
    if p['exp'] is not None:
        v = run_and_compare(c.exe, p['exp']) if c.exe else 'not compiled: ' + text[-300:]
    elif 'Link failure' in errs:
        v = 'rejected by the assembler, with the name of a temporary file'
    elif c.exe:
        v = 'invalid program compiled'
    shutil.rmtree(d, ignore_errors=True)
    return dict(i=i, v=v, errs=errs.replace(path, 'FILE'))


def build_test(chk, race=True):
    exe = os.path.join(chk.scratch, 'conc.test')
    ov = os.path.join(chk.scratch, 'overlay.json')
    with open(ov, 'w') as f:
        json.dump({'Replace': {os.path.join(core.REPO, 'conc_verif_test.go'): os.path.join(core.VERIF, 'go', 'conc_verif_test.go')}}, f)
    r = subprocess.run(['go', 'test', '-c', '-o', exe, '-overlay', ov] + (['-race'] if race else []) + ['.'], cwd=core.REPO, env=dict(core.base_env(), CGO_ENABLED='1'), capture_output=True, text=True)
    return exe if r.returncode == 0 else None, r.stdout + r.stderr


def inprocess(chk, b, comp, progs, ref):
    exe, msg = build_test(chk)
    if not exe:
        chk.note('race_detector_not_available')
        chk.sample(dict(race_build=msg[-400:]))
        exe, msg = build_test(chk, False)
        if not exe:
            raise core.Inconclusive('the in-process harness does not build:\n' + msg[-2000:])
    r = core.rng_for('C18', 'rounds', chk.seed)
    jobs, owner, rounds = [], [], []

    def job(k, name='p'):
        d = os.path.join(chk.scratch, 'ip%d' % len(jobs))
        os.makedirs(d + '/o')
        with open(d + '/%s.clara' % name, 'wb') as f:
            f.write(progs[k]['src'].encode('utf-8', 'surrogateescape'))
        jobs.append(dict(Prog=d + '/%s.clara' % name, Out=d + '/o'))
        owner.append(k)
        return len(jobs) - 1

    def shared(j):
        """The same source file compiled into another directory."""
        d = os.path.join(chk.scratch, 'ip%d' % len(jobs))
        os.makedirs(d + '/o')
        jobs.append(dict(Prog=jobs[j]['Prog'], Out=d + '/o'))
        owner.append(owner[j])
        return len(jobs) - 1
    n = len(progs)
    for k in range(chk.n(5, 40)):
        par = k % 5 != 1
        js = [job(r.randrange(n), r.choice(['p', 'p', 'p', 'q'])) for _ in range(16 if par else 12)]
        js += [shared(js[0]), shared(js[0]), shared(js[1])]
        if not par:
            js += [shared(js[q]) for q in range(4)]
            r.shuffle(js)
        rounds.append(dict(Parallel=par, Jobs=js))
    tmp = os.path.join(chk.scratch, 'iptmp')
    os.makedirs(tmp)
    spec = os.path.join(chk.scratch, 'spec.json')
    resf = os.path.join(chk.scratch, 'results.json')
    with open(spec, 'w') as f:
        json.dump(dict(Install=b.install, Jobs=jobs, Rounds=rounds, Results=resf), f)
    before = snapshot(b.install, tmp)
    env = dict(os.environ, PATH=b.bin + ':' + os.environ.get('PATH', '/usr/bin:/bin'), TMPDIR=tmp, VERIF_SPEC=spec, CLARA_MON_LDFLAGS='', GORACE='halt_on_error=0 exitcode=0 log_path=' + os.path.join(chk.scratch, 'race'))
    p = subprocess.run([exe, '-test.run', '^TestVerifConcurrent$', '-test.timeout', '700s'], cwd=chk.scratch, env=env, capture_output=True)
    if not os.path.exists(resf):
        out = (p.stdout + p.stderr)[-3000:]
        if b'panic' in out or b'fatal error' in out:
            chk.violation('the compiler crashed while compiling concurrently: %s' % out.decode('utf-8', 'replace')[:300], {'output.txt': out})
            return
        raise core.Inconclusive('no results from the in-process harness: %r' % out)
    left = diff(before, snapshot(b.install, tmp))
    if left:
        chk.violation('files after compiling in one process: %s' % left[:5])
    races = [f for f in os.listdir(chk.scratch) if f.startswith('race.')]
    for f in races:
        text = open(os.path.join(chk.scratch, f), errors='replace').read()
        chk.violation('data race between compilations: ' + ' '.join(text.split())[:260], {'race.txt': text})
    res = json.load(open(resf))
    pairs = 0
    for x in res:
        pairs += sum(1 for y in res if y['Round'] == x['Round'] and x['Job'] < y['Job'] and x['Start'] < y['End'] and y['Start'] < x['End'])
    chk.note('overlapping_pairs_of_compilations', pairs)
    chk.note('race_reports', len(races))

    def verify(_, x):
        k = owner[x['Job']]
        p, path = progs[k], jobs[x['Job']]['Prog']
        if x['Crash']:
            return 'crash: ' + x['Crash']
        if p['exp'] is None:
            got = ''.join(' - %s\n' % e for e in x['Errs'] or []).replace(path, 'FILE')
            got = core.strip_ansi(got.encode()).decode('utf-8', 'replace')
            return None if got == ref[k] else 'errors differ from those of a compilation alone: %r and %r' % (got[-300:], ref[k][-300:])
        if x['Errs'] or not x['Exe']:
            return 'a valid program is not compiled: %s' % str(x['Errs'])[-300:]
        if os.path.realpath(x['Exe']) != os.path.realpath(os.path.join(jobs[x['Job']]['Out'], os.path.basename(path)[:-6])):
            return 'the executable is at another place: %s' % x['Exe']
        return run_and_compare(x['Exe'], p['exp'])
    for x, v in zip(res, core.pmap(verify, None, res)):
        if isinstance(v, dict):
            chk.inconclusive.append(v['harness_error'])
            continue
        par = rounds[x['Round']]['Parallel']
        chk.saw('in-process %s %d %d' % (par, x['Round'], x['Job']))
        chk.note('in_process_compilations_' + ('parallel' if par else 'sequential'))
        if x['Job'] < 2:
            chk.sample(dict(what='in-process, parallel=%s, round %d' % (par, x['Round']), file=jobs[x['Job']]['Prog'] if 'Prog' in jobs[x['Job']] else str(jobs[x['Job']])[:200], errors=x['Errs'], executable=x['Exe']), 2)
        if v:
            chk.violation('in one process (%s): %s' % ('at the same time' if par else 'one after another', v), {'program.clara': progs[owner[x['Job']]]['src']})


DECOYS = ['p.S', 'p.s', 'p.asm', 'p.o', 'p', 'p.clara.S', 'q.S', 'clara.S', 'out.S', 'a.out', 'p.0.S', 'p.1.S', 'asm.S', 'p.tmp', 'p.clara', 'p.c', 'p.exe', 'p.log', 'p.bak', 'p~', 'p.i', 'p.d', 'p.map', 'runtime.o', 'bootstrap.o', 'core', 'p.clara.o', 'p.ll']


def processes(chk, b, progs, ref):
    """Many compiler processes at once."""
    r = core.rng_for('C18', 'proc', chk.seed)
    for rnd in range(chk.n(3, 20)):
        base = os.path.join(chk.scratch, 'mp%d' % rnd)
        tmp, cwd = base + '/tmp', base + '/cwd'
        os.makedirs(tmp); os.makedirs(cwd)
        for f in DECOYS:
            with open(os.path.join(tmp, f), 'w') as fh:
                fh.write('decoy, not assembly\n')
            with open(os.path.join(cwd, f), 'w') as fh:
                fh.write('decoy, not assembly\n')
        items = []
        for i in range(16):
            k = r.randrange(len(progs))
            if i and r.random() < .25:
                src, k = items[0][0], items[0][2]
            else:
                os.makedirs(base + '/s%d' % i)
                src = base + '/s%d/p.clara' % i
                with open(src, 'wb') as f:
                    f.write(progs[k]['src'].encode('utf-8', 'surrogateescape'))
            out = base + '/o%d' % i
            os.makedirs(out)
            if r.random() < .5:
                for n in ['other'] + [x for x in DECOYS if x != 'p']:
                    with open(out + '/' + n, 'w') as f:
                        f.write('other')
            items.append((src, out, k))
        watched = [tmp, cwd, b.install] + sorted(set(os.path.dirname(s) for s, _, _ in items)) + [o for _, o, _ in items]
        before = snapshot(*watched)
        env = dict(os.environ, PATH=b.bin + ':' + os.environ.get('PATH', '/usr/bin:/bin'), TMPDIR=tmp, CLARA_MON_LDFLAGS='')
        ps = [subprocess.Popen([b.clarac, '-install', b.install, '-prog', s, '-out', o], env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL) for s, o, _ in items]
        outs = []
        for p in ps:
            try:
                outs.append(p.communicate(timeout=300)[0])
            except subprocess.TimeoutExpired:
                p.kill()
                raise core.Inconclusive('a compiler process did not end within 300 s')
        allowed = set()
        for p, out, (s, o, k) in zip(ps, outs, items):
            v = None
            exe = o + '/p'
            have = os.path.isfile(exe)
            if progs[k]['exp'] is None:
                text = core.strip_ansi(out).decode('utf-8', 'replace')
                errs = (text.split('\nErrors\n')[-1] if '\nErrors\n' in text else '').replace(s, 'FILE')
                v = 'an invalid program was compiled' if have or p.returncode != 1 else None if errs == ref[k] else 'errors differ from those of a compilation alone: %r and %r' % (errs[-300:], ref[k][-300:])
            elif p.returncode != 0 or not have:
                v = 'a valid program is not compiled (status %s): %r' % (p.returncode, out[-300:])
            else:
                v = run_and_compare(exe, progs[k]['exp'])
                allowed.add('created ' + exe)
            chk.saw('process %d %d' % (rnd, k))
            chk.note('concurrent_process_compilations')
            if v:
                chk.violation('in concurrent processes: ' + v, {'program.clara': progs[k]['src']})
        d = [x for x in diff(before, snapshot(*watched)) if x not in allowed]
        if d:
            chk.violation('concurrent compilations changed other files: %s' % d[:6])
        shutil.rmtree(base, ignore_errors=True)


WRITE = re.compile(r'^(?:\[pid +)?(\d+)?\]? *(open|openat|creat|unlink|unlinkat|rename|renameat|renameat2|mkdir|mkdirat|rmdir|link|linkat|symlink|symlinkat|chmod|fchmodat|truncate|mknod|mknodat|utimensat)\((.*)\) = (-?\d+)')


def written(log, cwd):
    """(call, path) of every successful call which creates or changes a file."""
    out = []
    for l in log.split('\n'):
        m = WRITE.match(l)
        if not m or m.group(4).startswith('-'):
            continue
        call, args = m.group(2), m.group(3)
        paths = re.findall(r'"((?:[^"\\]|\\.)*)"', args)
        if call in ('open', 'openat'):
            if not re.search(r'O_WRONLY|O_RDWR|O_CREAT|O_TRUNC', args):
                continue
            paths = paths[:1]
        for p in paths:
            out.append((call, os.path.normpath(os.path.join(cwd, p))))
    return out


def syscalls(chk, b, progs, ref):
    """The files touched by the compiler and its children, from a system call trace."""
    if not shutil.which('strace'):
        chk.note('no_strace')
        return
    link = dict(src='fn nosuchfn(i: int) int\nfn main() {\n    println(nosuchfn(1))\n}\n', exp=None, link=True)
    good = [p for p in progs if p['exp'] is not None][:chk.n(3, 12)]
    bad = [p for p in progs if p['exp'] is None][:chk.n(2, 6)]
    for i, p in enumerate(good + bad + [link]):
        base = os.path.join(chk.scratch, 'st%d' % i)
        tmp, cwd, out, src = base + '/tmp', base + '/cwd', base + '/out', base + '/src'
        for d in (tmp, cwd, out, src):
            os.makedirs(d)
        for f in DECOYS:
            for d in (tmp, cwd, out, src):
                if d == out and f == 'p':
                    continue
                with open(os.path.join(d, f), 'w') as fh:
                    fh.write('decoy, not assembly\n')
        with open(src + '/p.clara', 'wb') as f:
            f.write(p['src'].encode('utf-8', 'surrogateescape'))
        before = snapshot(base, b.install)
        log = os.path.join(chk.scratch, 'strace%d.log' % i)
        env = dict(os.environ, PATH=b.bin + ':' + os.environ.get('PATH', '/usr/bin:/bin'), TMPDIR=tmp, CLARA_MON_LDFLAGS='')
        q = subprocess.run(['strace', '-f', '-qq', '-s', '4096', '-e', 'trace=%file', '-o', log, b.clarac, '-install', b.install, '-prog', src + '/p.clara', '-out', out], env=env, cwd=cwd, capture_output=True)
        text = open(log, errors='replace').read() if os.path.exists(log) else ''
        if not re.search(r'p\.clara', text):
            chk.note('strace_not_usable')
            shutil.rmtree(base, ignore_errors=True)
            return
        ops = written(text, cwd)
        exe = out + '/p'
        for call, path in ops:
            if path == exe or path.startswith('/dev/') or path.startswith(tmp + '/') and os.path.basename(path) not in DECOYS:
                continue
            chk.violation('the compiler changes a file which is not its own: %s %s' % (call, path), {'program.clara': p['src']})
        d = [x for x in diff(before, snapshot(base, b.install)) if x != 'created ' + exe or p['exp'] is None]
        if d:
            chk.violation('compiling left or changed files: %s' % d[:6], {'program.clara': p['src']})
        if p.get('link') and (q.returncode != 1):
            chk.violation('link failure is not reported (status %s)' % q.returncode)
        chk.saw('strace %d' % i)
        chk.sample(dict(what='file changes of one traced compilation', changes=[' '.join(o) for o in ops][:8]), 4)
        chk.note('traced_compilations')
        chk.note('file_changes_observed', len(ops))
        shutil.rmtree(base, ignore_errors=True)


def again(chk, comp, progs):
    """The output of an earlier compilation is replaced."""
    d = os.path.join(chk.scratch, 'again')
    good = [p for p in progs if p['exp'] is not None][:chk.n(6, 20)]
    for i, p in enumerate(good):
        c = comp.compile_src(p['src'], d, 'p')
        v = run_and_compare(c.exe, p['exp']) if c.exe and c.rc == 0 else 'not compiled'
        chk.saw('again %d' % i)
        chk.note('recompilations_into_the_same_directory')
        if v:
            chk.violation('compiling over an earlier output: ' + v, {'program.clara': p['src']})


NAMES = ['p', 'p.1', 'p.2', 'p.1.2', 'P', 'p x', 'p-1', 'p_1', 'prog', 'prog.clara', 'Prog', 'p.S', 'p.o', 'é', 'pp', 'p1', 'main', 'a.out']


def onedir(chk, b, progs):
    """Programs with similar names compiled into one directory, at the same time and one after another: every one keeps its own executable."""
    good = [p for p in progs if p['exp'] is not None]
    for par in (True, False):
        base = os.path.join(chk.scratch, 'one%d' % par)
        tmp, src, out = base + '/tmp', base + '/src', base + '/out'
        for d in (tmp, src, out):
            os.makedirs(d)
        env = dict(os.environ, PATH=b.bin + ':' + os.environ.get('PATH', '/usr/bin:/bin'), TMPDIR=tmp, CLARA_MON_LDFLAGS='')
        ps = []
        for i, n in enumerate(NAMES):
            with open(src + '/' + n + '.clara', 'wb') as f:
                f.write(good[i % len(good)]['src'].encode('utf-8', 'surrogateescape'))
        for i, n in enumerate(NAMES):
            p = subprocess.Popen([b.clarac, '-install', b.install, '-prog', src + '/' + n + '.clara', '-out', out], env=env, cwd=base, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            if not par:
                p.wait(300)
            ps.append(p)
        for i, (n, p) in enumerate(zip(NAMES, ps)):
            try:
                o = p.communicate(timeout=300)[0]
            except subprocess.TimeoutExpired:
                p.kill()
                raise core.Inconclusive('a compiler process did not end within 300 s')
            g = good[i % len(good)]
            exe = out + '/' + n
            v = None
            if p.returncode != 0:
                v = 'a valid program is not compiled (status %s): %r' % (p.returncode, o[-300:])
            elif not os.path.isfile(exe):
                v = 'no executable of this name among %s' % sorted(os.listdir(out))
            else:
                v = run_and_compare(exe, g['exp'])
            chk.saw('one directory %s %s' % (par, n))
            chk.note('compilations_into_one_directory')
            if v:
                chk.violation('%s.clara compiled into the directory of other programs: %s' % (n, v), {'program.clara': g['src']})
        left = [f for f in sorted(os.listdir(out)) if f not in NAMES] + sorted(os.listdir(tmp))
        if left:
            chk.violation('compiling left or changed files: %s' % left[:6])
        shutil.rmtree(base, ignore_errors=True)


def run(chk):
    b = chk.build()
    comp = core.Compiler(b)
    progs = programs(chk, chk.n(32, 120))
    ref = {}
    for r in core.pmap(alone, dict(comp=comp, scratch=chk.scratch), list(enumerate(progs))):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            return
        ref[r['i']] = r['errs']
        if r['v']:
            # wrong even alone: another property's matter; not used here
            progs[r['i']]['skip'] = True
            chk.note('programs_wrong_even_alone')
    keep = [i for i in range(len(progs)) if not progs[i].get('skip')]
    ref = {n: ref[i] for n, i in enumerate(keep)}
    progs = [progs[i] for i in keep]
    if len(progs) < 8:
        raise core.Inconclusive('too few programs compile alone')
    processes(chk, b, progs, ref)
    syscalls(chk, b, progs, ref)
    again(chk, comp, progs)
    onedir(chk, b, progs)
    inprocess(chk, b, comp, progs, ref)
