"""Inspection options of the compiler and GC logging of executables only add output."""
import os, re, shutil
from . import core, gen, syntax
from .c06 import WRAP
from .c09 import HELPERS, BADX, BADS, BADD, TStmt
from .c10 import SINK, mutate, corpus

RULE = ('(a) valid programs (generated with a reference trace, repository tests), invalid and malformed programs are compiled with and without random combinations of the options -lex, -ast, -types, -in, -asm (random patterns for -ast): '
        'same status, same list of errors, executable with the same trace; (b) programs which allocate and panic are run with and without GC logging (each spelling and position of the option): the program\'s own lines must appear in '
        'the same order and number, with the same exit status. One evaluation is one compilation or run with options')

PATTERNS = ['.', '.*', 'main', '^main$', 'tr', '^[a-z]+$', 'x|y', '«', 'é', '^$', 'println', '[0-9]+', '(?i)ST', ' main ', '^$|.', 'append|get', '\\(', '"']
PANICS = ['fn main() {\n    println("a")\n    s := "x".append("y")\n    a := [1, 2]\n    println(s)\n    println(a[2])\n    println("never")\n}\n',
          'fn f(i: int) string {\n    if i == 0 {\n        return "abc".Substring(2, 9).append("z")\n    }\n    return i.toString().append(f(i - 1))\n}\nfn main() {\n    println(f(3))\n    b := Bytes(3)\n    println(b.get(7))\n}\n',
          'fn main() {\n    println("before")\n    exit(7)\n    println("never")\n}\n',
          'fn main() {\n    l := Element(1, Element(2, Empty«int»()))\n    l.foreach(fn(i: int) {\n        println(i)\n        if i == 2 {\n            panic("stop")\n        }\n    })\n}\n']
ALLOC = '''
struct node«T» {
    v: T
    next: []option«node«T»»
}
fn show(o: option«node«string»», d: int) {
    match o {
        case Some(n):
            printf("t %lld %s\\n", d, n.v)
            for e in n.next {
                show(e, d + 1)
            }
        case None():
            printf("t %lld none\\n", d)
    }
}
fn build(d: int) option«node«string»» {
    if d == 0 {
        return None«node«string»»()
    }
    return Some(Node("n".append(d.toString()), [build(d - 1), build(d - 2 > 0 ? d - 2 : 0)]))
}
fn main() {
    show(build(4), 0)
    m := NewHashMap«string, int»(fn(s: string) int = s.length, fn(a: string, b: string) bool = a.Equals(b))
    for i in 0 .. 20 {
        m.put("k".append(i.toString()), i)
    }
    printf("t size %lld\\n", m.size)
    fs := [fn() int = 1, fn() int = m.size]
    for f in fs {
        printf("t f %lld\\n", f())
    }
    b := ByteBuffer(4)
    b.append("hello")
    printf("t %s\\n", b.toString())
    printf("t args %lld\\n", getRuntime().args.length - getRuntime().args.length)
}
'''


ARGS = '''
fn main() {
    r := getRuntime()
    printf("t %lld\\n", r.args.length)
    for i in 1 .. r.args.length {
        printf("t %s\\n", r.args[i])
    }
    junk := "x"
    for i in 0 .. 12 {
        junk = junk.append(i.toString())
    }
    a := r.args
    for i in 1 .. a.length {
        printf("t %lld %s\\n", i, a[i])
    }
    printf("t end\\n")
}
'''
ARGVALS = ['a', 'b c', '', '-', '--', 'é', '--foo', '-x', 'g', 'x' * 300, '--gc', '-gx', '--gc.debug=1']


def errors(c):
    t = core.strip_ansi(c.out)
    i = t.rfind(b'\nErrors\n')
    return re.sub(rb'\.\d+\.S', b'.S', t[i:]) if i >= 0 else b''        # names of temporary files vary


def opts(r):
    o = []
    for x in ('-lex', '-types', '-in', '-asm'):
        if r.random() < .5:
            o.append(r.choice([x, '-' + x, x + '=true']))
    if r.random() < .5 or not o:
        o += ['-ast', r.choice(PATTERNS)]
    return o


def comp_job(ctx, it):
    kind, key = it
    r = core.rng_for('C20', ctx['seed'], kind, key)
    comp, d = ctx['comp'], os.path.join(ctx['scratch'], 'j%s-%s' % (kind, key))
    exp = None
    if kind == 'gen':
        p = gen.make(r, gen.Prof(**dict(dict(tests=3, funcs=5, gfuncs=3, stmts=4), **[dict(), dict(w_closure=4), dict(generics=.8), dict(w_struct=3, w_enum=3, w_array=3)][key % 4])), 20000)
        src, exp = p.source(), p.expected_output()
    elif kind == 'repo':
        src = ctx['repo'][key]
    elif kind == 'mut':
        src = mutate(r, r.choice(ctx['repo']) if r.random() < .5 else SINK, ctx['repo'])[1]
        try:
            src.encode('utf-8', 'surrogateescape')
        except UnicodeEncodeError:
            return dict(kind=kind, res=[])
    else:
        text, what = ctx['bad'][key]
        src = HELPERS + {'X': 'fn main() {\n    hq := ' + text + '\n}\n', 'T': 'fn main() {\n' + TStmt(text).src(1) + '}\n', 'D': text + '\nfn main() {\n}\n'}[what]
    res = []
    base = comp.compile_src(src, d, 'p')
    b = None
    if base.timeout:
        return dict(kind=kind, res=[])
    if base.exe:
        b = core.run_exe(base.exe)
        if exp is not None and b.out != exp:
            return dict(kind=kind, res=[])        # wrong without options: another property's matter
        if exp is None and core.run_exe(base.exe).out != b.out:
            b = None                               # output is not repeatable
    for i in range(ctx['per'] if kind in ('gen', 'repo') else 2):
        o = opts(r)
        shutil.rmtree(os.path.join(d, 'o'), ignore_errors=True)
        c = comp.compile_src(src, d, 'p', opts=o)
        v = None
        if c.timeout == 'wall':
            continue
        if c.rc != base.rc or bool(c.exe) != bool(base.exe):
            v = 'status %s and executable %s without options, status %s and executable %s with: %s' % (base.rc, bool(base.exe), c.rc, bool(c.exe), core.strip_ansi(c.out)[-300:].decode('utf-8', 'replace'))
        elif errors(c) != errors(base):
            v = 'errors differ: %r and %r' % (errors(base)[:200], errors(c)[:200])
        elif c.exe and b:
            x = core.run_exe(c.exe)
            if x.timeout != 'wall' and (x.out, x.rc) != (b.out, b.rc):
                v = 'the executable behaves differently: %r and %r' % (b.out[-150:], x.out[-150:])
        res.append(dict(v=v, o=' '.join(o), n=len(c.out), rc=c.rc))
    shutil.rmtree(d, ignore_errors=True)
    return dict(kind=kind, res=res, src=src)


def gc_job(ctx, it):
    kind, key = it
    r = core.rng_for('C20gc', ctx['seed'], kind, key)
    comp, d = ctx['comp'], os.path.join(ctx['scratch'], 'g%s-%s' % (kind, key))
    if kind == 'gen':
        p = gen.make(r, gen.Prof(**dict(dict(tests=2, funcs=5, gfuncs=3, stmts=4, nodes=20), **[dict(), dict(w_closure=4), dict(generics=.8), dict(w_struct=3, w_enum=3, w_array=3)][key % 4])), 3000)
        src = p.source()
        if p.allocs > 400:
            return dict(kind=kind, res=[])
    else:
        src = (PANICS + [ALLOC])[key]
    c = comp.compile_src(src, d, 'p')
    res = []
    if not c.exe:
        return dict(kind=kind, res=res)
    base = core.run_exe(c.exe)
    for args in [['-g'], ['--gc.debug'], ['a', '--gc.debug', 'b'], ['x', 'y', '-g'], ['--gc.d']]:
        x = core.run_exe(c.exe, args, maxout=1 << 30, cpu=60)
        plain = core.run_exe(c.exe, [a for a in args if not a.startswith('-')] + ['z'])
        if x.timeout or plain.timeout:
            continue
        v = None
        want, got = base.out.split(b'\n'), x.out.split(b'\n')
        i = 0
        for l in got:
            if i < len(want) and l == want[i]:
                i += 1
        own = [l for l in got if l[:2] in (b't ', b'# ')]
        ownwant = [l for l in want if l[:2] in (b't ', b'# ')]
        if x.rc != base.rc:
            v = 'exit status %s with GC logging, %s without; end of output %r' % (x.rc, base.rc, x.out[-200:])
        elif i < len(want):
            v = 'line %d of the program (%r) is missing or out of order with GC logging' % (i, want[i])
        elif own != ownwant:
            v = 'the program prints other lines with GC logging'
        elif (plain.out, plain.rc) != (base.out, base.rc):
            v = 'the program behaves differently with arguments: %r' % plain.out[-200:]
        res.append(dict(v=v, o=' '.join(args), n=len(got) - len(want), rc=x.rc))
    shutil.rmtree(d, ignore_errors=True)
    return dict(kind='gc-' + kind, res=res, src=src)


def args_job(ctx, key):
    """The arguments the program sees include the option, in place, with nothing lost."""
    r = core.rng_for('args', ctx['seed'], key)
    d = os.path.join(ctx['scratch'], 'a%s' % key)
    c = ctx['comp'].compile_src(ARGS, d, 'p')
    res = []
    for i in range(12):
        args = [r.choice(ARGVALS[:7] if r.random() < .7 else ARGVALS) for _ in range(r.randrange(0, 6))]
        for _ in range(r.choice([1, 1, 1, 2])):
            args.insert(r.randrange(len(args) + 1), r.choice(['-g', '--gc.debug']))
        x = core.run_exe(c.exe, args, maxout=1 << 30, cpu=60)
        if x.timeout:
            continue
        want = [b't %d' % (len(args) + 1)] + [b't ' + a.encode() for a in args] + [b't %d %s' % (j + 1, a.encode()) for j, a in enumerate(args)] + [b't end']
        got = [l for l in x.out.split(b'\n') if l[:2] == b't ']
        v = None
        if x.rc:
            v = 'exit status %s with GC logging, 0 without' % x.rc
        elif got != want:
            v = 'the program sees %r, given %r' % (got[:len(args) + 1], args)
        res.append(dict(v=v, o=' '.join(args), n=x.out.count(b'\n') - len(want), rc=x.rc))
    shutil.rmtree(d, ignore_errors=True)
    return dict(kind='gc-args', res=res, src=ARGS)


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch, seed=chk.seed, per=chk.n(3, 6))
    ctx['repo'] = [s for n, s in corpus(chk) if n.startswith('tests') or n == 'sink']
    ctx['repo'] = [s for s in ctx['repo'] if syntax.check(s) is None]
    bad = [(t, 'X') for t in BADX] + [(t, 'T') for t in BADS] + [(t, 'D') for t in BADD]
    core.rng_for('C20b', chk.seed).shuffle(bad)
    ctx['bad'] = bad
    items = [('repo', i) for i in range(len(ctx['repo']))] + [('gen', i) for i in range(chk.n(40, 300))] + [('bad', i) for i in range(chk.n(100, len(bad)))] + [('mut', i) for i in range(chk.n(160, 1500))]
    logged = 0
    out = core.pmap(comp_job, ctx, items) + core.pmap(gc_job, ctx, [('fixed', i) for i in range(len(PANICS) + 1)] + [('gen', i) for i in range(chk.n(40, 400))])
    out += core.pmap(args_job, ctx, list(range(chk.n(8, 40))))
    for r in out:
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for x in r['res']:
            chk.saw('%s %s' % (core.hashlib.sha1(r['src'].encode('utf-8', 'surrogateescape')).hexdigest(), x['o']))
            if r['kind'].startswith('gc'):
                chk.note('runs_with_gc_logging')
                chk.note('lines_of_gc_log', max(0, x['n']))
                logged += x['n'] > 0
            else:
                chk.note('compilations_' + r['kind'])
                chk.note('status_%s' % x['rc'])
            chk.sample(dict(kind=r['kind'], options=x['o'], extra_output=x['n']), 6)
            if x['v']:
                chk.violation('%s with %s: %s' % (r['kind'], x['o'], x['v']), {'program.clara': r['src']})
    chk.note('runs_which_logged', logged)
