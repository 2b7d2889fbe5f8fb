"""Trace monitor: generated programs are compiled and run; the recorded trace is compared, event by event, with the
trace of the reference evaluator."""
import hashlib, os, shutil
from . import core, gen
from .lang import *


def node_stats(prog):
    """Counts AST node kinds of the tests which are run (evidence only)."""
    c = {}
    seen = set()

    def w(n):
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, (list, tuple)):
                stack.extend(x)
                continue
            if not isinstance(x, (E, Das, As, Ex, If, While, ForR, ForA, Match, Return, Func)):
                continue
            if id(x) in seen:
                continue
            seen.add(id(x))
            k = type(x).__name__
            if k == 'Bin' or k == 'Un':
                k += x.op
            c[k] = c.get(k, 0) + 1
            names = []
            for cl in type(x).__mro__:
                names += getattr(cl, '__slots__', ())
            names += list(getattr(x, '__dict__', ()))
            for a in names:
                if a not in ('t', 'd', 'fn', 'text'):
                    stack.append(getattr(x, a, None))
    for t in prog.tests:
        w(t)
    return c


def first_diff(exp, out):
    e, o = exp.split(b'\n'), out.split(b'\n')
    for i in range(max(len(e), len(o))):
        a = e[i] if i < len(e) else None
        b = o[i] if i < len(o) else None
        if a != b:
            return i, a, b
    return None


def describe(exp, r, what=''):
    d = first_diff(exp, r.out)
    if d is None:
        return None
    i, a, b = d
    hdr = [l for l in exp.split(b'\n')[:i + 1] if l.startswith(b'# ')]
    return '%strace differs at event %d (in test %s): reference %r, program %r (exit status %s%s)' % (
        what, i, hdr[-1].decode() if hdr else '?', a, b, r.rc, ', ' + r.timeout if r.timeout else '')


def check_program(ctx, src, exp, d, name='p', runs=(('', None),), rc=0, extra_check=None, opts=(), run_kw=None):
    """Compiles and runs one program. Returns (violation or None, run result)."""
    comp = ctx['comp']
    c = comp.compile_src(src, d, name, opts)
    if c.timeout == 'wall':
        raise core.Inconclusive('compiler ran into the wall clock watchdog')
    if c.rc != 0 or not c.exe:
        return 'valid program is not compiled (status %s): %s' % (c.rc, c.out[-1500:].decode('utf-8', 'replace')), None
    r = core.run_exe(c.exe, **(run_kw or {}))
    if r.timeout == 'wall':
        raise core.Inconclusive('program ran into the wall clock watchdog')
    v = describe(exp, r)
    if v is None and r.rc != rc:
        v = 'trace is right but exit status is %s, expected %s' % (r.rc, rc)
    if v is None and extra_check:
        v = extra_check(r, c)
    return v, r


def job(ctx, item):
    label, prof, seed = item
    rng = core.rng_for(ctx['prop'], label, seed)
    prog = gen.make(rng, prof, ctx.get('fuel', 60000))
    src, exp = prog.source(), prog.expected_output()
    res = dict(label=label, seed=seed, tests=len(prog.tests), events=sum(len(x) for x in prog.expected), allocs=prog.allocs,
               stats=node_stats(prog), key=hashlib.sha1(src.encode('utf-8', 'surrogateescape')).hexdigest(), size=len(src))
    d = os.path.join(ctx['scratch'], 'p-%s-%s' % (label, seed))
    v, r = check_program(ctx, src, exp, d, extra_check=ctx.get('extra_check'), run_kw=ctx.get('run_kw'))
    shutil.rmtree(d, ignore_errors=True)
    res['v'] = v
    if v:
        res['src'], res['exp'], res['out'] = src, exp, (r.out if r else b'')
    if seed == ctx.get('sample_seed'):
        res['sample'] = dict(test=prog.tests[0].src()[:1500] if prog.tests else '', trace=[x.decode('utf-8', 'replace') for x in (prog.expected[0] if prog.expected else [])][:12])
    return res


def explore(chk, ctx, profiles, counts):
    """Runs counts[i] programs of profiles[i] and records the verdicts."""
    items = []
    for (label, prof), n in zip(profiles, counts):
        items += [(label, prof, '%d.%d' % (chk.seed, i)) for i in range(n)]
    ctx['prop'] = chk.prop
    ctx['scratch'] = chk.scratch
    ctx.setdefault('sample_seed', '%d.0' % chk.seed)
    collect(chk, core.pmap(job, ctx, items))


def collect(chk, results):
    kinds = chk.coverage.setdefault('constructs_executed', {})
    for r in results:
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for k in range(max(1, r['tests'])):
            chk.saw('%s#%d' % (r['key'], k), r['tests'] > 0)
        chk.note('programs'); chk.note('events_compared', r['events']); chk.note('reference_allocations', r['allocs'])
        for k, n in r['stats'].items():
            kinds[k] = kinds.get(k, 0) + n
        if 'sample' in r:
            chk.sample(r['sample'])
        if r['v']:
            chk.violation('%s seed %s: %s' % (r['label'], r['seed'], r['v']),
                          {'program.clara': r['src'], 'expected.txt': r['exp'], 'actual.txt': r['out']})
