import os, re, shutil
from . import core, gen, diff, big
from .lang import *

RULE = ('random allocating programs run on a monitored heap: every object has its own pages and guard page, freed objects become inaccessible '
        'for ever; a collection runs at every allocation. One evaluation is one test function: violated if the monitor reports an access to a freed '
        'object, an access outside an object, a double or invalid free, or if the trace (ending with a dump of everything reachable) differs from the reference')

WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'


def mon_check(r, c=None):
    e = r.err
    if b'MON FAULT' in e:
        i = e.index(b'MON FAULT')
        return 'heap monitor: ' + e[i:].split(b'\n')[0].decode()
    if b'MON INCONCLUSIVE' in e:
        raise core.Inconclusive(e.decode('utf-8', 'replace')[-300:])
    if b'MON END' not in e:
        return 'program ended without the monitor report (status %s)' % r.rc
    return None


def stats(err):
    i = err.rfind(b'MON END')
    if i < 0:
        return {}
    return {k.decode(): int(v) for k, v in (x.split(b'=') for x in err[i:].split()[2:])}


def run_monitored(ctx, src, exp, d, rc=0):
    st = {}

    def extra(r, c):
        st.update(stats(r.err))
        return mon_check(r)
    v, r = diff.check_program(ctx, src, exp, d, extra_check=extra, rc=rc)
    if r is not None:
        m = mon_check(r) if r.rc in (77, 78) else None
        v = m or v
    return v, r, st


def job(ctx, item):
    label, prof, seed = item
    rng = core.rng_for(ctx['prop'], label, seed)
    prog = gen.make(rng, prof, 30000)
    src, exp = prog.source(), prog.expected_output()
    d = os.path.join(ctx['scratch'], 'p-%s-%s' % (label, seed))
    v, r, st = run_monitored(ctx, src, exp, d)
    shutil.rmtree(d, ignore_errors=True)
    import hashlib
    res = dict(label=label, seed=seed, tests=len(prog.tests), events=sum(len(x) for x in prog.expected), allocs=prog.allocs, stats=diff.node_stats(prog),
               key=hashlib.sha1(src.encode('utf-8', 'surrogateescape')).hexdigest(), v=v, mon=st)
    if v:
        res.update(src=src, exp=exp, out=(r.out + b'\n--- stderr\n' + r.err) if r else b'')
    if seed.endswith('.0'):
        res['sample'] = dict(test=prog.tests[0].src()[:1200] if prog.tests else '', monitor=st)
    return res


# ---------------------------------------------------------------------------------------------------------------------
# Directed programs: root map shapes which random programs rarely reach

def many_types(n, rng):
    """n struct types and enums (type ids beyond 8 bits), pointer fields at different offsets, all alive at once."""
    src, body, exp = [], [], []
    for i in range(n):
        k = rng.randint(0, 4)
        fs = ['i%d: int' % j for j in range(k)] + ['s: string'] + ['j: int'] * (rng.random() < .5 and k < 4)
        if i % 3 == 2:
            src.append('enum t%d {\n    None%d()\n    C%d(%s)\n    D%d(x: int)\n}\n' % (i, i, i, ', '.join(fs[:5]), i))
            a = ['%d' % (i + j) if not f.startswith('s:') else '"v%d".append("x")' % i for j, f in enumerate(fs[:5])]
            body.append('    x%d := C%d(%s)\n' % (i, i, ', '.join(a)))
        else:
            src.append('struct t%d {\n%s}\n' % (i, ''.join('    %s\n' % f for f in fs)))
            a = ['%d' % (i + j) if not f.startswith('s:') else '"v%d".append("x")' % i for j, f in enumerate(fs)]
            body.append('    x%d := T%d(%s)\n' % (i, i, ', '.join(a)))
    for i in range(n):
        if i % 3 == 2:
            names = [f for f in src[i].split('(')[2].split(')')[0].split(', ')]
            names = ['w%d' % j if not f.startswith('s:') else 's' for j, f in enumerate(names)]
            body.append('    match x%d {\n        case None%d():\n            println("none")\n        case C%d(%s):\n            println(s)\n        case D%d(x):\n            println(x)\n    }\n' % (i, i, i, ', '.join(names), i))
        else:
            body.append('    println(x%d.s)\n' % i)
        exp.append('v%dx' % i)
    return '\n'.join(src) + 'fn main() {\n' + ''.join(body) + '}\n', ('\n'.join(exp) + '\n').encode()


def arg_temps(rng):
    """Allocating arguments: earlier arguments live only in registers / spill slots while later ones allocate."""
    src = ['struct box {\n    s: string\n    n: int\n}\n', 'fn mk(i: int) box = Box("b".append(i.toString()), i)\n',
           'fn junk(i: int) int {\n    x := "junk".append(i.toString())\n    y := [x, x.append("y")]\n    return i\n}\n']
    body, exp = [], []
    for k in range(1, 7):
        src.append('fn cat%d(%s) string = %s\n' % (k, ', '.join('a%d: box' % j for j in range(k)),
                                                  '""' + ''.join('.append(a%d.s)' % j for j in range(k))))
        src.append('fn mix%d(%s) string = %s\n' % (k, ', '.join('a%d: %s' % (j, 'int' if j % 2 else 'string') for j in range(k)),
                                                  '""' + ''.join('.append(a%d%s)' % (j, '.toString()' if j % 2 else '') for j in range(k))))
    n = 0
    for _ in range(25):
        k = rng.randint(1, 6)

        def arg(d):
            nonlocal n
            n += 1
            i = n
            c = rng.random()
            if d > 0 and c < .25:
                kk = rng.randint(1, 6)
                xs = [arg(d - 1) for _ in range(kk)]
                return 'Box(cat%d(%s), junk(%d))' % (kk, ', '.join(x[0] for x in xs), i), ''.join(x[1] for x in xs)
            if c < .45:
                return '[mk(%d), mk(%d)][junk(1)]' % (i + 1000, i), 'b%d' % i
            if c < .6:
                return '(junk(%d) > 0 ? mk(%d) : mk(0))' % (i, i), 'b%d' % i
            return 'mk(%d)' % i, 'b%d' % i
        xs = [arg(2) for _ in range(k)]
        body.append('    println(cat%d(%s))\n' % (k, ', '.join(x[0] for x in xs)))
        exp.append(''.join(x[1] for x in xs))
        k = rng.randint(1, 6)
        a, e = [], ''
        for j in range(k):
            n += 1
            if j % 2:
                a.append('junk(%d)' % n if rng.random() < .7 else 'mk(%d).s.length' % n)
                e += '%d' % (n if a[-1].startswith('junk') else len('b%d' % n))
            else:
                a.append('"q".append(mk(%d).s)' % n)
                e += 'qb%d' % n
        body.append('    println(mix%d(%s))\n' % (k, ', '.join(a)))
        exp.append(e)
    return ''.join(src) + 'fn main() {\n' + ''.join(body) + '}\n', ('\n'.join(exp) + '\n').encode()


def scopes(rng):
    """Slots of closed scopes hold dead pointers while new scopes open: a stale root touches a freed object."""
    body, exp = [], []
    n = 0
    for i in range(30):
        n += 1
        c = rng.randint(0, 4)
        if c == 0:
            body.append('    if on {\n        a%d := "if".append("%d")\n        println(a%d)\n    }\n    churn(3)\n' % (n, n, n))
            exp.append('if%d' % n)
        elif c == 1:
            body.append('    for i%d in 0 .. 3 {\n        b%d := "for".append(i%d.toString())\n        churn(i%d)\n        println(b%d)\n    }\n    churn(2)\n' % (n, n, n, n, n))
            exp += ['for0', 'for1', 'for2']
        elif c == 2:
            body.append('    for s%d in ["x".append("1"), "x".append("2")] {\n        churn(2)\n        println(s%d)\n    }\n    churn(2)\n' % (n, n))
            exp += ['x1', 'x2']
        elif c == 3:
            body.append('    match Some("m".append("%d")) {\n        case Some(v%d):\n            churn(2)\n            println(v%d)\n        case None():\n            println("none")\n    }\n    churn(1)\n' % (n, n, n))
            exp.append('m%d' % n)
        else:
            body.append('    w%d := 0\n    while w%d < 2 {\n        c%d := ["w".append(w%d.toString()), "z"]\n        churn(2)\n        println(c%d[0])\n        if w%d == 0 {\n            d%d := c%d[0].append("d")\n            churn(1)\n            println(d%d)\n        }\n        w%d = w%d + 1\n    }\n' % ((n,) * 11))
            exp += ['w0', 'w0d', 'w1']
    src = 'fn churn(n: int) {\n    x := "c"\n    for i in 0 .. n {\n        x = x.append("h")\n        y := [x, x]\n    }\n}\nfn body(on: bool) {\n' + ''.join(body) + '}\nfn main() {\n    body(true)\n    body(true)\n}\n'
    return src, ('\n'.join(exp * 2) + '\n').encode()


def structures(n):
    """Long lists, wide arrays, cycles and deep closures chains survive collections."""
    src = '''
struct node {
    val: string
    next: option«node»
}
enum tree {
    Leaf()
    Node(l: tree, v: string, r: tree)
}
fn insert(t: tree, n: int) tree {
    if n == 0 {
        return t
    }
    return Node(insert(t, n - 1), "t".append(n.toString()), Leaf())
}
fn depth(t: tree) int {
    match t {
        case Leaf(): return 0
        case Node(l, v, r): return 1 + (v.length * 0) + depth(l)
    }
}
fn chain(n: int, f: fn(string) string) fn(string) string {
    if n == 0 {
        return f
    }
    return chain(n - 1, fn(s: string) string = f(s).append("."))
}
fn main() {
    a := Node2("a".append("1"))
    b := Node2("b".append("2"))
    a.next = Some(b)
    b.next = Some(a)
    l := Empty«string»()
    for i in 0 .. %d {
        l = l.append("e".append(i.toString()))
    }
    w := array(%d, "w".append("w"))
    for i in 0 .. w.length {
        w[i] = "w".append(i.toString())
    }
    g := [["p".append("q")], ["r".append("s"), "t".append("u")]]
    t := insert(Leaf(), 60)
    c := chain(30, fn(s: string) string = s.append("!"))
    m := NewHashMap«string, string»(fnv1a, Equals)
    for i in 0 .. 60 {
        m.put("k".append(i.toString()), "v".append(i.toString()))
    }
    match a.next {
        case Some(n):
            match n.next {
                case Some(o): println(o.val)
                case None(): println("lost")
            }
        case None(): println("lost")
    }
    n := 0
    l.foreach(fn(s: string) { s.length.keep() })
    println(l.reduce("", fn(x: string, y: string) string = x.length > 40 ? x : x.append(y)))
    for s in w {
        n = n + s.length
    }
    println(n)
    println(g[1][1].append(g[0][0]))
    println(t.depth())
    println(c("x"))
    for i in 0 .. 60 {
        print(m.orElse("k".append(i.toString()), "?"))
    }
    println("")
}
fn keep(i: int) int = i
fn Node2(s: string) node = s.NewNode()
fn NewNode(s: string) node = node_(s)
fn node_(s: string) node = Nod(s, None«node»())
''' % (n, n)
    # the struct is called "node" and the enum case "Node": keep the constructor names apart
    src = src.replace('struct node', 'struct nod').replace('option«node»', 'option«nod»').replace(') node', ') nod').replace('None«node»', 'None«nod»')
    red = ''
    for i in range(n - 1, -1, -1):
        if len(red) <= 40:
            red += 'e%d' % i
    exp = ['a1', red, '%d' % sum(1 + len('%d' % i) for i in range(n)), 'tupq', '60', 'x!' + '.' * 30, ''.join('v%d' % i for i in range(60))]
    return src, ('\n'.join(exp) + '\n').encode()


# A fresh value of every kind that is a pointer: (type, expression making number n, expression giving its text)
KINDS = [('string', '"v".append(N.toString())', '(X)', 'v%d'),
         ('bytes', 'mkb(N)', 'showb(X)', 'b%d'),
         ('[]int', '[N, N + 1]', 'showi(X)', 'i%d'),
         ('[]string', '["s".append(N.toString())]', '(X)[0]', 's%d'),
         ('[]bytes', '[mkb(N), mkb(N + 1)]', 'showb((X)[0])', 'b%d'),
         ('[][]int', '[[N, 1], [2]]', 'showi((X)[0])', 'i%d'),
         ('rec', 'Rec(N, "r".append(N.toString()))', '(X).s', 'r%d'),
         ('flat', 'Flat(N, 7)', '(X).a.toString()', '%d'),
         ('gen«string»', 'Gen("g".append(N.toString()))', '(X).v', 'g%d'),
         ('gen«bytes»', 'Gen(mkb(N))', 'showb((X).v)', 'b%d'),
         ('gen«[]int»', 'Gen([N])', 'showi((X).v)', 'i%d'),
         ('choice', 'Text("c".append(N.toString()))', 'showc(X)', 'c%d'),
         ('choice', 'Raw(mkb(N))', 'showc(X)', 'b%d'),
         ('choice', 'Digit(N)', 'showc(X)', '%d'),
         ('option«string»', 'Some("o".append(N.toString()))', '(X).ordef("none")', 'o%d'),
         ('option«bytes»', 'Some(mkb(N))', 'showb((X).ordef(mkb(0)))', 'b%d'),
         ('fn() string', 'capture("f".append(N.toString()))', '(X)()', 'f%d'),
         ('fn() string', 'captureb(mkb(N))', '(X)()', 'b%d'),
         ('fn(int) string', 'adder(N)', '(X)(0)', '%d')]
KIND_DECLS = '''
struct rec {
    n: int
    s: string
}
struct flat {
    a: int
    b: int
}
struct gen«T» {
    v: T
}
enum choice {
    Nil()
    Digit(n: int)
    Text(s: string)
    Raw(b: bytes)
}
struct holder«T» {
    n: int
    v: T
    b: bool
    w: T
}
enum keeper«T» {
    Nothing2()
    One(v: T)
    Two(n: int, v: T, w: T)
}
fn ordef«T»(o: option«T», d: T) T {
    match o {
        case Some(v): return v
        case None(): return d
    }
}
fn mkb(n: int) bytes {
    b := Bytes(2)
    b.set(0, n & 127)
    b.set(1, n >> 7)
    return b
}
fn showb(b: bytes) string = "b".append((b.get(0) + (b.get(1) << 7)).toString())
fn showi(a: []int) string = "i".append(a[0].toString())
fn showc(c: choice) string {
    match c {
        case Nil(): return "nil"
        case Digit(n): return n.toString()
        case Text(s): return s
        case Raw(b): return showb(b)
    }
}
fn capture(s: string) fn() string = fn() string = s
fn captureb(b: bytes) fn() string = fn() string = showb(b)
fn adder(n: int) fn(int) string = fn(m: int) string = (n + m).toString()
fn churn(n: int) {
    x := "c"
    for i in 0 .. n {
        x = x.append("h")
        y := [x, x]
        z := Bytes(i + 1)
    }
}
'''
# What keeps the values: statements making value A (and B) reachable only through it, and expressions reading them back. T is the type.
KEEPERS = [('h := [A, B]', ['h[0]', 'h[1]']),
           ('h := [[A], [B]]', ['h[0][0]', 'h[1][0]']),
           ('h := [[[A, B]]]', ['h[0][0][0]', 'h[0][0][1]']),
           ('h := array(5, A)\n    h[4] = B', ['h[0]', 'h[3]', 'h[4]']),
           ('h := Holder(1, A, true, B)', ['h.v', 'h.w']),
           ('h := [Holder(1, A, false, B)]', ['h[0].v', 'h[0].w']),
           ('h := Holder(1, [A], false, [B])', ['h.v[0]', 'h.w[0]']),
           ('h := Some(A)\n    k := B', ['getopt(h)', 'k']),
           ('h := Some([A, B])', ['getopt(h)[0]', 'getopt(h)[1]']),
           ('h := Two(1, A, B)', ['first(h)', 'last(h)']),
           ('h := [One(A), Two(2, B, A)]', ['first(h[0])', 'first(h[1])', 'last(h[1])']),
           ('h := hold(A, B)', ['h(true)', 'h(false)']),
           ('h := [hold(A, B)]', ['h[0](true)', 'h[0](false)']),
           ('h := hold([A], [B])', ['h(true)[0]', 'h(false)[0]']),
           ('h := Gen(A)\n    k := Gen(Gen(B))', ['h.v', 'k.v.v']),
           ('h := NewHashMap«int, T»(fn(i: int) int = i, fn(i: int, j: int) bool = i == j)\n    h.put(1, A)\n    h.put(17, B)', ['getopt(h.get(1))', 'getopt(h.get(17))']),
           ('h := Element(A, Element(B, Empty«T»()))', ['hd(h)', 'hd(tl(h))']),
           ('h := A\n    k := B\n    h = k\n    k = A', ['h', 'k']),
           ('h := fn() T {\n        l := A\n        churn(2)\n        return l\n    }\n    k := h()', ['h()', 'k'])]
KEEP_DECLS = '''
fn getopt«T»(o: option«T») T {
    match o {
        case Some(v): return v
        case None():
            panic("lost")
    }
    return getopt(o)
}
fn first«T»(k: keeper«T») T {
    match k {
        case Nothing2():
            panic("lost")
        case One(v): return v
        case Two(n, v, w): return v
    }
    return first(k)
}
fn last«T»(k: keeper«T») T {
    match k {
        case Nothing2():
            panic("lost")
        case One(v): return v
        case Two(n, v, w): return w
    }
    return last(k)
}
fn hold«T»(a: T, b: T) fn(bool) T = fn(x: bool) T = x ? a : b
fn hd«T»(l: list«T») T {
    match l {
        case Element(h, t): return h
        case Empty():
            panic("lost")
    }
    return hd(l)
}
fn tl«T»(l: list«T») list«T» {
    match l {
        case Element(h, t): return t
        case Empty(): return l
    }
}
'''


def keepers(ks, rng):
    """Every kind of pointer in every kind of place."""
    fns, body, exp, n = [], [], [], 100
    for i, (t, mk, show, text) in enumerate(KINDS):
        for j in ks:
            stmts, reads = KEEPERS[j]
            a, b = n, n + 1
            n += 2
            st = re.sub(r'\bA\b', mk.replace('N', str(a)).replace('\\', '\\\\'), stmts)
            st = re.sub(r'\bB\b', mk.replace('N', str(b)).replace('\\', '\\\\'), st)
            st = re.sub(r'\bT\b', t, st)
            # which of the two values each read gives
            val = {0: a, 1: b}
            if j == 3:
                which = [a, a, b]
            elif j == 10:
                which = [a, b, a]
            elif j == 17:
                which = [b, a]
            elif j == 18:
                which = [a, a]
            else:
                which = [a, b]
            fns.append('fn k%d_%d() {\n    %s\n    churn(%d)\n%s}\n' % (i, j, st, rng.randint(1, 4), ''.join('    println(%s)\n' % show.replace('X', x) for x in reads)))
            body.append('    k%d_%d()\n' % (i, j))
            exp += [text % w for w in which]
    return KIND_DECLS + KEEP_DECLS + ''.join(fns) + 'fn main() {\n' + ''.join(body) + '}\n', ('\n'.join(exp) + '\n').encode()


def directed_job(ctx, item):
    kind, k = item
    rng = core.rng_for('C06d', kind, ctx['seed'], k)
    if kind == 'types':
        src, exp = many_types(k, rng)
    elif kind == 'args':
        src, exp = arg_temps(rng)
    elif kind == 'scopes':
        src, exp = scopes(rng)
    elif kind == 'keepers':
        src, exp = keepers([k], rng)
    else:
        src, exp = structures(k)
    d = os.path.join(ctx['scratch'], '%s%d' % (kind, k))
    v, r, st = run_monitored(ctx, src, exp, d)
    shutil.rmtree(d, ignore_errors=True)
    return dict(item=item, v=v, src=src, exp=exp, out=(r.out + b'\n--- stderr\n' + r.err) if r else b'', mon=st)


def big_monitored(ctx, src, exp, d):
    v, r, _ = run_monitored(ctx, src, exp, d)
    return v, r


def run(chk):
    b = chk.build(extra_c=['heapmon.c'])
    ctx = dict(comp=core.Compiler(b, WRAP), scratch=chk.scratch, seed=chk.seed, prop=chk.prop)
    P = gen.Prof
    profs = [('mixed', P(w_string=2.5, w_array=2)),
             ('closures', P(w_closure=4, w_string=2, w_bytes=.2)),
             ('data', P(structs=6, enums=5, w_struct=4, w_enum=3, w_array=3, w_string=2, generics=.5, w_bytes=.25)),
             ('nested', P(w_call=5, depth=5, nodes=60, w_string=4, w_struct=2, w_array=2)),
             ('flow', P(w_if=2.5, w_loop=2.5, w_match=3, nest=4, w_string=2, lib=1))]
    items = []
    for (label, p), n in zip(profs, chk.n([80] * 5, [500] * 5)):
        items += [(label, p, '%d.%d' % (chk.seed, i)) for i in range(n)]
    res = core.pmap(job, ctx, items)
    diff.collect(chk, res)
    for r in res:
        for k in ('allocs', 'frees'):
            chk.note('monitored_' + k, r.get('mon', {}).get(k, 0))
    items = [('keepers', i) for i in range(len(KEEPERS))] + [('types', n) for n in (40, 300, 700)] + [('args', i) for i in range(chk.n(10, 100))] + [('scopes', i) for i in range(chk.n(10, 100))] + [('structures', n) for n in chk.n([3, 40], [3, 40, 150])]
    for r in core.pmap(directed_job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('directed %s %d' % r['item'])
        chk.note('directed_programs')
        for k in ('allocs', 'frees'):
            chk.note('monitored_' + k, r['mon'].get(k, 0))
        if r['v']:
            chk.violation('%s: %s' % (r['item'], r['v']), {'program.clara': r['src'], 'expected.txt': r['exp'], 'actual.txt': r['out']})
    big.run(chk, ctx, ['roots', 'locals', 'functions', 'cases'], big_monitored)
    if not chk.violations and chk.coverage.get('monitored_frees', 0) < 1000:
        chk.inconclusive.append('the heap monitor observed only %d frees' % chk.coverage.get('monitored_frees', 0))
