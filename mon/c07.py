"""Unreachable objects are reclaimed."""
import hashlib, os, shutil
from . import core, gen, diff
from .c06 import WRAP, mon_check, stats, many_types
from .hist import Hist

RULE = ('heap event monitor: (1) for each object type and each way of dropping the last reference, the object is registered, kept alive over some collections, dropped, and must have '
        'been freed after at most 4000 further small allocations (the free event is the oracle); (2) random programs: after each test function returned, and again after '
        'repeating it, the number of live objects must fall back to the level before; (3) long loops with bounded data run with a bounded number of live objects. '
        'One evaluation is one dropped object, one test function or one loop')

LIMIT = 4000

# type, new object from an int k
TYPES = [
    ('rec', 'Rec({k}, "r".append({k}.toString()))'),
    ('string', '"s".append({k}.toString())'),
    ('bytes', 'Bytes({k} + 1)'),
    ('[]int', 'intArray({k} + 1)'),
    ('[]int', 'array({k} + 1, 7)'),
    ('[]string', '["a".append("b"), "c"]'),
    ('[]rec', '[Rec({k}, "x"), Rec(2, "y".append("z"))]'),
    ('[][]int', '[[1, {k}], [2]]'),
    ('shape', 'Circle({k})'),
    ('shape', 'Poly({k}, "p".append("q"), [1, 2, 3])'),
    ('shape', 'Nil()'),
    ('option«int»', 'Some({k})'),
    ('option«rec»', 'Some(Rec({k}, "o"))'),
    ('list«int»', 'Empty«int»().append({k}).append(2).append(3)'),
    ('pair«rec, string»', 'Pair(Rec({k}, "p"), "q".append("r"))'),
    ('map«int, string»', 'newMap({k})'),
    ('byteBuffer', 'NewByteBuffer({k} + 1)'),
    ('fn(int) int', 'adder({k})'),
    ('gen«rec»', 'Gen(Rec({k}, "g"), [Rec(1, "h")])'),
    ('gen«int»', 'Gen({k}, [1, 2])'),
    ('result«rec, string»', 'Ok«rec, string»(Rec({k}, "ok"))'),
    ('result«rec, string»', 'Err«rec, string»("bad".append("!"))'),
    ('wide', 'Wide(1, "w".append("1"), 3, [4], 5, "w".append("6"))'),
]
# name, function body. T: type, N(..): new object, K: id of the object, U: unique number
WAYS = [
    ('reassign', 'x := N(K)\nreg(x, K)\nchurn(AGE)\nlive(K)\nx = N(K + 1)\ngone(K, "W")\nkeep(x)'),
    ('if block', 'if yes() {\n    x := N(K)\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n}\ngone(K, "W")'),
    ('else block', 'if not yes() {\n    y := 1\n    z := y\n} else {\n    x := N(K)\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n}\ngone(K, "W")'),
    ('for body', 'for i in 0 .. 1 {\n    x := N(K)\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n}\ngone(K, "W")'),
    ('while body', 'i := 0\nwhile i < 1 {\n    x := N(K)\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n    i = i + 1\n}\ngone(K, "W")'),
    ('next iteration', 'for i in 0 .. 2 {\n    if i == 1 {\n        gone(K, "W")\n    }\n    x := N(K)\n    if i == 0 {\n        reg(x, K)\n    }\n    churn(AGE)\n    keep(x)\n}'),
    ('for array', 'for x in [N(K)] {\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n}\ngone(K, "W")'),
    ('match binding', 'match Some(N(K)) {\n    case Some(v):\n        reg(v, K)\n        churn(AGE)\n        live(K)\n        keep(v)\n    case None():\n        println("none")\n}\ngone(K, "W")'),
    ('return', 'mk{U}()\ngone(K, "W")', 'fn mk{U}() T {\n    x := N(K)\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    return x\n}\n'),
    ('local of callee', 'call{U}()\ngone(K, "W")', 'fn call{U}() {\n    x := N(K)\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n}\n'),
    ('argument', 'arg{U}(N(K), 1)\ngone(K, "W")', 'fn arg{U}(x: T, y: int) {\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n}\n'),
    ('second argument', 'arg{U}("a".append("b"), N(K), "c".append("d"))\ngone(K, "W")', 'fn arg{U}(a: string, x: T, b: string) {\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n}\n'),
    ('parameter', 'arg{U}(N(K))', 'fn arg{U}(x: T) {\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    x = N(K + 1)\n    gone(K, "W")\n    keep(x)\n}\n'),
    ('field', 'h := Hold{U}(1, N(K), "s".append("t"))\nreg(h.x, K)\nchurn(AGE)\nlive(K)\nh.x = N(K + 1)\ngone(K, "W")\nkeep(h.x)\nkeep(h.s)', 'struct hold{U} {\n    n: int\n    x: T\n    s: string\n}\n'),
    ('owner', 'h := Hold{U}(1, N(K), "s".append("t"))\nreg(h.x, K)\nchurn(AGE)\nlive(K)\nh = Hold{U}(2, N(K + 1), "u")\ngone(K, "W")\nkeep(h.x)', 'struct hold{U} {\n    n: int\n    x: T\n    s: string\n}\n'),
    ('element', 'a := [N(K), N(K + 1)]\nreg(a[0], K)\nchurn(AGE)\nlive(K)\na[0] = a[1]\ngone(K, "W")\nkeep(a[0])'),
    ('array dropped', 'a := [N(K + 1), N(K)]\nreg(a[1], K)\nchurn(AGE)\nlive(K)\na = [N(K + 2)]\ngone(K, "W")\nkeep(a[0])'),
    ('enum field', 'o := Some(N(K))\nmatch o {\n    case Some(v): reg(v, K)\n    case None(): println("none")\n}\nchurn(AGE)\nlive(K)\no = None«T»()\ngone(K, "W")\nkeep(o)'),
    ('closure dropped', 'c := cap{U}()\nc()\nchurn(AGE)\nlive(K)\nc = fn() int = 3\ngone(K, "W")\nc()', 'fn cap{U}() fn() int {\n    x := N(K)\n    reg(x, K)\n    return fn() int {\n        keep(x)\n        return 1\n    }\n}\n'),
    ('captured variable', 'x := N(K)\nreg(x, K)\nc := fn() {\n    x = N(K + 1)\n    keep(x)\n}\nx = N(K + 2)\nchurn(AGE)\nlive(K)\nc()\ngone(K, "W")\nkeep(x)\nc()'),
    ('closure parameter', 'c := fn(x: T) {\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    keep(x)\n}\nc(N(K))\ngone(K, "W")'),
    ('list', 'l := Empty«T»().append(N(K + 1)).append(regged{U}(N(K))).append(N(K + 2))\nl = l.reverse()\nchurn(AGE)\nlive(K)\nl = Empty«T»()\ngone(K, "W")\nkeep(l)', 'fn regged{U}(x: T) T {\n    reg(x, K)\n    return x\n}\n'),
    ('map removed', 'm := NewHashMap«int, T»(fn(i: int) int = i, fn(a: int, b: int) bool = a == b)\nm.put(1, regged{U}(N(K)))\nm.put(2, N(K + 1))\nchurn(AGE)\nlive(K)\nm.remove(1)\ngone(K, "W")\nkeep(m)', 'fn regged{U}(x: T) T {\n    reg(x, K)\n    return x\n}\n'),
    ('map replaced', 'm := NewHashMap«int, T»(fn(i: int) int = i, fn(a: int, b: int) bool = a == b)\nm.put(1, regged{U}(N(K)))\nchurn(AGE)\nlive(K)\nm.put(1, N(K + 1))\ngone(K, "W")\nkeep(m)', 'fn regged{U}(x: T) T {\n    reg(x, K)\n    return x\n}\n'),
    ('cycle', 'cyc{U}()\ngone(K, "W")', 'struct node{U} {\n    next: option«node{U}»\n    x: T\n}\nfn cyc{U}() {\n    a := Node{U}(None«node{U}»(), N(K))\n    b := Node{U}(Some(a), N(K + 1))\n    a.next = Some(b)\n    reg(a.x, K)\n    churn(AGE)\n    live(K)\n    keep(b.x)\n}\n'),
    ('closure cycle', 'cyc{U}()\ngone(K, "W")', 'struct node{U} {\n    f: option«fn() int»\n    x: T\n}\nfn cyc{U}() {\n    a := Node{U}(None«fn() int»(), N(K))\n    a.f = Some(fn() int {\n        keep(a.x)\n        return 1\n    })\n    reg(a.x, K)\n    churn(AGE)\n    live(K)\n    keep(a.x)\n}\n'),
    ('ternary', 'keep(yes() ? regged{U}(N(K)) : N(K + 1))\ngone(K, "W")', 'fn regged{U}(x: T) T {\n    reg(x, K)\n    return x\n}\n'),
    ('temporary', 'keep(regged{U}(N(K)))\ngone(K, "W")', 'fn regged{U}(x: T) T {\n    reg(x, K)\n    churn(AGE)\n    live(K)\n    return x\n}\n'),
    ('recursion', 'rec{U}(8)\ngone(K, "W")', 'fn rec{U}(n: int) int {\n    x := N(K)\n    if n == 4 {\n        reg(x, K)\n    }\n    if n > 0 {\n        rec{U}(n - 1)\n    }\n    keep(x)\n    return n\n}\n'),
    ('early return', 'er{U}(true)\ngone(K, "W")', 'fn er{U}(b: bool) int {\n    x := N(K)\n    reg(x, K)\n    for i in 0 .. 5 {\n        y := N(K + 1)\n        if b {\n            return i\n        }\n        keep(y)\n    }\n    keep(x)\n    return 0\n}\n'),
    ('generic', 'gf{U}(regged{U}(N(K)))\ngone(K, "W")', 'fn gf{U}«G»(g: G) int {\n    a := [g, g]\n    o := Some(a[1])\n    churn(2)\n    return a.length\n}\nfn regged{U}(x: T) T {\n    reg(x, K)\n    return x\n}\n'),
]

PRE = '''
struct rec {
    n: int
    s: string
}
struct wide {
    a: int
    b: string
    c: int
    d: []int
    e: int
    f: string
}
struct gen«T» {
    v: T
    a: []T
}
enum shape {
    Nil()
    Circle(r: int)
    Poly(n: int, name: string, pts: []int)
}
fn adder(k: int) fn(int) int = fn(x: int) int = x + k
fn newMap(k: int) map«int, string» {
    m := NewHashMap«int, string»(fn(i: int) int = i, fn(a: int, b: int) bool = a == b)
    m.put(k, "v".append("w"))
    return m
}
fn yes() bool = true
fn keep«T»(t: T) int = 1
fn churn(n: int) {
    for i in 0 .. n {
        b := Bytes(1)
    }
}
fn live(k: int) {
    if not (monFreed(k) == 0) {
        println("FREED TOO EARLY")
    }
}
fn gone(k: int, what: string) {
    n := 0
    while monFreed(k) == 0 and n < LIMIT {
        churn(10)
        n = n + 10
    }
    if monFreed(k) == 0 {
        print("NOT RECLAIMED ")
    } else {
        print("reclaimed ")
    }
    print(k)
    print(" ")
    println(what)
}
#[RawValues]
fn monFreed(k: int) int
#[RawValues]
fn monLive() int
'''.replace('LIMIT', str(LIMIT))


def scenario(i, tw):
    """Statements and declarations of one scenario with id 4*i."""
    t, w, age = tw
    typ, new = TYPES[t]
    way = WAYS[w]
    k = 4 * i

    def sub(s):
        s = s.replace('{U}', str(i)).replace('AGE', str(age))
        # N(..)
        out = ''
        while 'N(K' in s:
            a = s.index('N(K')
            b = s.index(')', a)
            out += s[:a] + new.replace('{k}', '(' + s[a + 2:b] + ')')
            s = s[b + 1:]
        out += s
        import re
        out = re.sub(r'\bK\b', str(k), out)
        out = re.sub(r'\bT\b', typ, out)
        return out.replace('"W"', '"%s / %s"' % (typ, way[0]))
    body = sub(way[1])
    decl = sub(way[2]) if len(way) > 2 else ''
    return decl + 'fn sc%d() {\n' % i + ''.join('    %s\n' % l for l in body.split('\n')) + '}\n', (k, typ, way[0])


def drop_job(ctx, item):
    idx, combos = item
    src = PRE
    for t in sorted(set(TYPES[c[0]][0] for c in combos)):
        # one C function for all types
        src += '#[RawValues]\nfn monObj(p: %s, k: int) nothing\nfn reg(p: %s, k: int) = monObj(p, k)\n' % (t, t)
    names = []
    for i, c in enumerate(combos):
        s, n = scenario(i, c)
        src += s
        names.append(n)
    src += 'fn main() {\n' + ''.join('    sc%d()\n' % i for i in range(len(combos))) + '    println("end")\n}\n'
    d = os.path.join(ctx['scratch'], 'drop%d' % idx)
    c = ctx['comp'].compile_src(src, d)
    res = dict(item=idx, src=src, n=len(combos), v=[], ways=[n[2] for n in names], types=[n[1] for n in names])
    if c.rc != 0 or not c.exe:
        res['v'].append('valid program is not compiled: %s' % c.out[-1500:].decode('utf-8', 'replace'))
        return res
    r = core.run_exe(c.exe)
    shutil.rmtree(d, ignore_errors=True)
    if b'MON INCONCLUSIVE' in r.err:
        raise core.Inconclusive(r.err.decode('utf-8', 'replace')[-300:])
    res['mon'] = stats(r.err)
    res['out'] = r.out + b'\n---\n' + r.err
    got = [l for l in r.out.decode('utf-8', 'replace').split('\n') if l]
    exp = ['reclaimed %d %s / %s' % n for n in names] + ['end']
    if got != exp or r.rc != 0:
        for l in got:
            if l.startswith('NOT RECLAIMED'):
                res['v'].append('object is not reclaimed after %d further allocations: %s' % (LIMIT, l))
        if not res['v']:
            m = mon_check(r)
            i = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            res['v'].append('%s: got %r, expected %r, status %s' % (m or 'trace differs', got[i:i + 1], exp[i:i + 1], r.rc))
    return res


SETTLE = '''
fn churnLive(n: int) {
    for i in 0 .. n {
        b := Bytes(1)
    }
}
fn settle(base: int, what: string) {
    n := 0
    while monLive() > base and n < %d {
        churnLive(10)
        n = n + 10
    }
    if monLive() > base {
        printf("LEAK %%s live %%lli base %%lli\\n", what, monLive(), base)
    } else {
        printf("SETTLED %%s\\n", what)
    }
}
#[RawValues]
fn monLive() int
''' % LIMIT


def random_job(ctx, item):
    label, prof, seed = item
    rng = core.rng_for('C07', label, seed)
    prog = gen.make(rng, prof, 30000)
    src = prog.source()
    src = src[:src.rindex('fn main() {')] + SETTLE
    # the level reached by the whole sequence once, then again and again: live objects must not accumulate
    src += 'fn round() {\n' + ''.join('    %s()\n    churnLive(2)\n' % t.name for t in prog.tests) + '}\nfn main() {\n    churnLive(20)\n    base := monLive() + 1\n'
    n = 0
    for i, t in enumerate(prog.tests):
        src += '    %s()\n    settle(base, "# %d")\n    %s()\n    settle(base, "# %d again")\n' % (t.name, i, t.name, i)
    src += '    for i in 0 .. 4 {\n        round()\n        settle(base, "# round")\n    }\n    println("# end")\n}\n'
    d = os.path.join(ctx['scratch'], 'r-%s-%s' % (label, seed))
    c = ctx['comp'].compile_src(src, d)
    res = dict(item=(label, seed), src=src, n=len(prog.tests), v=[], key=hashlib.sha1(src.encode('utf-8', 'surrogateescape')).hexdigest())
    if c.rc != 0 or not c.exe:
        res['v'].append('valid program is not compiled: %s' % c.out[-1500:].decode('utf-8', 'replace'))
        return res
    r = core.run_exe(c.exe, cpu=60)
    shutil.rmtree(d, ignore_errors=True)
    if b'MON INCONCLUSIVE' in r.err:
        raise core.Inconclusive(r.err.decode('utf-8', 'replace')[-300:])
    res['mon'] = stats(r.err)
    res['out'] = r.out + b'\n---\n' + r.err
    lines = r.out.split(b'\n')
    leaks = [l for l in lines if l.startswith(b'LEAK ')]
    settled = sum(l.startswith(b'SETTLED ') for l in lines)
    if leaks:
        res['v'].append('live objects accumulate: %s' % leaks[0].decode('utf-8', 'replace'))
    elif r.rc != 0 or settled != 2 * len(prog.tests) + 4 or lines[-2:-1] != [b'# end']:
        res['v'].append('program did not run to its end: status %s, %s' % (r.rc, mon_check(r)))
    res['settled'] = settled
    return res


LOOPS = [
    ('string building', 's := ""\nfor i in 0 .. n {\n    s = s.append("x")\n    if s.length > 20 {\n        s = ""\n    }\n}'),
    ('struct chain', 'r := Rec(0, "")\nfor i in 0 .. n {\n    r = Rec(i, r.s.length > 9 ? "" : r.s.append("y"))\n}'),
    ('map churn', 'm := newMap(0)\nfor i in 0 .. n / 8 {\n    m.put(i & 15, "v".append(i.toString()))\n    m.remove((i + 3) & 15)\n}'),
    ('closures', 'f := adder(0)\nfor i in 0 .. n / 3 {\n    k := f(1) & 7\n    f = fn(x: int) int = x + k\n}'),
    ('lists', 'l := Empty«int»()\nfor i in 0 .. n / 4 {\n    l = l.append(i)\n    if (i & 7) == 0 {\n        l = Empty«int»()\n    }\n}'),
    ('arrays', 'a := [[1], [2]]\nfor i in 0 .. n / 3 {\n    a[i & 1] = array((i & 7) + 1, i)\n}'),
    ('enums', 'e := Nil()\nfor i in 0 .. n / 3 {\n    e = (i & 1) == 0 ? Circle(i) : Poly(i, "p".append("q"), [i])\n}'),
    ('calls', 'for i in 0 .. n / 12 {\n    mix(i.toString(), Rec(i, "a".append("b")), [i, i], Some(i.toString()), "z".append("y"), i)\n}'),
    ('buffers', 'b := NewByteBuffer(0)\nfor i in 0 .. n / 2 {\n    b.append(i & 127)\n    if (i & 31) == 0 {\n        b.reset()\n        b.toString()\n    }\n}'),
    ('fresh buffers', 'for i in 0 .. n / 16 {\n    b := NewByteBuffer(0)\n    b.append("hello ").append(i.toString()).append("!")\n}'),
    ('generic', 'for i in 0 .. n / 12 {\n    g := Gen(Rec(i, "r"), [Rec(i, "s")])\n    keep(g)\n    h := Gen(i, [i])\n    keep(h)\n}'),
    ('options', 'o := None«rec»()\nfor i in 0 .. n / 6 {\n    o = o.map(fn(r: rec) rec = Rec(r.n + 1, "n".append("m")))\n    if o.isNone() {\n        o = Some(Rec(i, ""))\n    }\n    o = o.filter(fn(r: rec) bool = r.n < 100)\n}'),
    ('recursion', 'for i in 0 .. n / 60 {\n    deep(8)\n}'),
    ('cycles', 'for i in 0 .. n / 4 {\n    a := Nd(None«nd»())\n    a.next = Some(a)\n}'),
]


def loop_job(ctx, item):
    k, n = item
    name, body = LOOPS[k]
    src = PRE + '''
struct nd {
    next: option«nd»
}
fn mix(a: string, r: rec, x: []int, o: option«string», b: string, n: int) string = a.append(r.s).append(b)
fn deep(n: int) string = n == 0 ? "" : deep(n - 1).append("d")
fn body(n: int) {
%s}
fn main() {
    body(60)
    churn(10)
    body(%d)
    churn(10)
    println("end")
}
''' % (''.join('    %s\n' % l for l in body.split('\n')), n)
    d = os.path.join(ctx['scratch'], 'loop%d' % k)
    c = ctx['comp'].compile_src(src, d)
    res = dict(item=item, src=src, v=[])
    if c.rc != 0 or not c.exe:
        res['v'].append('valid program is not compiled: %s' % c.out[-1500:].decode('utf-8', 'replace'))
        return res
    r = core.run_exe(c.exe, cpu=100)
    shutil.rmtree(d, ignore_errors=True)
    st = res['mon'] = stats(r.err)
    res['out'] = r.out + b'\n---\n' + r.err
    if b'MON INCONCLUSIVE too many objects' in r.err or st.get('maxlive', 0) > LIMIT + 1000:
        res['v'].append('%s: live objects grow without bound over %d iterations: %s' % (name, n, st or 'more than 30000'))
    elif r.rc != 0 or r.out != b'end\n':
        res['v'].append('%s: status %s %s %s' % (name, r.rc, r.timeout, mon_check(r)))
    return res


def run(chk):
    b = chk.build(extra_c=['heapmon.c'])
    ctx = dict(comp=core.Compiler(b, WRAP), scratch=chk.scratch, seed=chk.seed)
    rng = core.rng_for('C07', chk.seed)
    combos = [(t, w, rng.choice([0, 1, 5])) for t in range(len(TYPES)) for w in range(len(WAYS))]
    if chk.thorough:
        combos = [(t, w, a) for t in range(len(TYPES)) for w in range(len(WAYS)) for a in (0, 1, 5, 40)]
    rng.shuffle(combos)
    jobs = [(i, combos[i * 24:(i + 1) * 24]) for i in range((len(combos) + 23) // 24)]
    ways = chk.coverage.setdefault('reclaimed_by_way', {})
    types = chk.coverage.setdefault('reclaimed_by_type', {})
    for r in core.pmap(drop_job, ctx, jobs):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for w, t in zip(r['ways'], r['types']):
            chk.saw('drop %s %s' % (w, t))
            ways[w] = ways.get(w, 0) + 1
            types[t] = types.get(t, 0) + 1
        for k in ('allocs', 'frees'):
            chk.note('monitored_' + k, r.get('mon', {}).get(k, 0))
        for v in r['v']:
            chk.violation(v, {'program.clara': r['src'], 'actual.txt': r.get('out', b'')})
    P = gen.Prof
    profs = [('mixed', P(w_string=2.5, w_array=2)), ('closures', P(w_closure=4, w_string=2)), ('data', P(structs=6, enums=5, w_struct=4, w_enum=3, w_array=3, w_string=2, generics=.5)),
             ('flow', P(w_if=2.5, w_loop=2.5, w_match=3, nest=4, w_string=2, lib=1))]
    n = chk.n(30, 300)
    for r in core.pmap(random_job, ctx, [(l, p, '%d.%d' % (chk.seed, i)) for l, p in profs for i in range(n)]):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for k in range(r['n']):
            chk.saw('%s#%d' % (r['key'], k))
        chk.note('random_programs'); chk.note('settled_observations', r.get('settled', 0))
        for k in ('allocs', 'frees'):
            chk.note('monitored_' + k, r.get('mon', {}).get(k, 0))
        for v in r['v']:
            chk.violation('%s: %s' % (r['item'], v), {'program.clara': r['src'], 'actual.txt': r.get('out', b'')})
    for r in core.pmap(loop_job, ctx, [(k, chk.n(40000, 400000)) for k in range(len(LOOPS))]):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('loop %d' % r['item'][0])
        chk.coverage.setdefault('loops', {})[LOOPS[r['item'][0]][0]] = r.get('mon', {})
        for v in r['v']:
            chk.violation(v, {'program.clara': r['src'], 'actual.txt': r.get('out', b'')})
    chk.sample(dict(scenario=scenario(0, (0, 0, 1))[0], loop=LOOPS[0][1]))
