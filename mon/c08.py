"""No access outside an array, bytes or string."""
import os, re, shutil
from . import core
from .c06 import WRAP, mon_check
from .lang import MIN, MAX, wrap

RULE = ('access shapes (reads, writes, nested, arguments, conditions, closures, generics, constructors, bytes, strings, literal and computed indexes) x lengths x indexes (all small '
        'ones, the boundaries, and values which wrap in 32 bits, 61 bits or when scaled); the guard-page heap detects any touched memory. In-bounds: right value, status 0; '
        'out of bounds: panic naming index and length (arrays), status 1, nothing executed after the access. Also creation with negative or overflowing lengths. '
        'One evaluation is one process run')

# name, statements using a (length n), i; expected lines for a valid index; is it an array access
SHAPES = [
    ('read', 'a := ints(n)\nprintln(a[i])', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('write', 'a := ints(n)\na[i] = 77\nprintln(a[i])', lambda n, i: ['77']),
    ('write-effect', 'a := ints(n)\na[i] = say(5)\nprintln(a[i])', lambda n, i: ['say5', '5']),
    ('nested-outer', 'b := grid(n)\nprintln(b[i][0])', lambda n, i: ['%d' % (i * 100)]),
    ('nested-inner', 'b := [idents(n), idents(n)]\nprintln(b[1][i])', lambda n, i: ['%d' % i]),
    ('nested-write', 'b := grid(n)\nb[i][0] = 9\nprintln(b[i][0])', lambda n, i: ['9']),
    ('index-of-index', 'a := ints(n)\nc := idents(n)\nprintln(a[c[i]])', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('argument', 'a := ints(n)\nprintln(two(a[i], 1))', lambda n, i: ['%d' % (i * 10 + 4)]),
    ('sixth-argument', 'a := ints(n)\nprintln(six(1, 2, 3, 4, 5, a[i]))', lambda n, i: ['%d' % (i * 10 + 18)]),
    ('method', 'a := ints(n)\nprintln(a[i].two(2))', lambda n, i: ['%d' % (i * 10 + 5)]),
    ('arith', 'a := ints(n)\nprintln((7 * a[i]) + (100 / (a[i] + 1)))', lambda n, i: ['%d' % (7 * (i * 10 + 3) + 100 // (i * 10 + 4))]),
    ('condition', 'a := ints(n)\nif a[i] > 0 {\n    println("yes")\n}', lambda n, i: ['yes']),
    ('while', 'a := ints(n)\nwhile a[i] > 0 {\n    println(a[i])\n    a[i] = 0\n}', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('struct-read', 's := recs(n)\nprintln(s[i].v)', lambda n, i: ['%d' % i]),
    ('struct-write', 's := recs(n)\ns[i].v = 12\nprintln(s[i].v)', lambda n, i: ['12']),
    ('struct-replace', 's := recs(n)\ns[i] = Rec(5, "new")\nprintln(s[i].s)', lambda n, i: ['new']),
    ('strings', 't := strs(n)\nprintln(t[i])', lambda n, i: ['s%d' % i]),
    ('strings-write', 't := strs(n)\nt[i] = "x".append("y")\nprintln(t[i].length)', lambda n, i: ['2']),
    ('closure', 'a := ints(n)\nf := fn() int = a[i]\nprintln(f())', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('closure-param', 'f := fn(x: []int, k: int) int = x[k]\nprintln(f(ints(n), i))', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('functions', 'g := fns(n)\nprintln(g[i](1000))', lambda n, i: ['%d' % (1000 + i)]),
    ('call-result', 'println(ints(n)[i])', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('ternary', 'a := ints(n)\nprintln(n >= 0 ? a[i] : 0)', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('computed', 'a := ints(n)\nprintln(a[(i + 1) - 1])', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('call-index', 'a := ints(n)\nprintln(a[two(i, 0)])', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('generic', 'println(at(ints(n), i))\nprintln(at(strs(n), i))', lambda n, i: ['%d' % (i * 10 + 3), 's%d' % i]),
    ('generic-write', 'a := ints(n)\nput(a, i, 4)\nprintln(a[i])', lambda n, i: ['4']),
    ('setElement', 'println(setElement(ints(n), i, 44)[i])', lambda n, i: ['44']),
    ('constructor', 'a := ints(n)\nr := Rec(a[i], "k")\nprintln(r.v)', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('enum', 'e := opts(n)\nprintln(e[i].orElse(0))', lambda n, i: ['%d' % (i + 1)]),
    ('match', 'e := opts(n)\nmatch e[i] {\n    case Some(v): println(v)\n    case None(): println("none")\n}', lambda n, i: ['%d' % (i + 1)]),
    ('return', 'println(ret(ints(n), i))', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('shift', 'a := ints(n)\nprintln((1 << 4) + a[i])', lambda n, i: ['%d' % (i * 10 + 19)]),
    ('array-lit', 'a := [a1(n)[i], 5]\nprintln(a[0])', lambda n, i: ['%d' % (i * 10 + 3)]),
    ('loop', 'a := ints(n)\nfor k in 0 .. 2 {\n    println(a[i] + k)\n}', lambda n, i: ['%d' % (i * 10 + 3), '%d' % (i * 10 + 4)]),
    ('intArray', 'a := intArray(n)\na[i] = 3\nprintln(a[i])', lambda n, i: ['3']),
    ('stringArray', 'a := stringArray(n, "d")\nprintln(a[i])', lambda n, i: ['d']),
    ('optionArray', 'a := array«int»(n)\nprintln(a[i].isNone())', lambda n, i: ['true']),
    ('field-array', 'h := Hold(1, ints(n))\nprintln(h.a[i])\nh.a[i] = 8\nprintln(h.a[i])', lambda n, i: ['%d' % (i * 10 + 3), '8']),
]
# every kind of array expression x every kind of access
BASES = [('var', 'a := ints(n)', 'a', True), ('field', 'h := Hold(1, ints(n))', 'h.a', True), ('deep-field', 'w := Wrap(Hold(1, ints(n)), 2)', 'w.h.a', True),
         ('element', 'b := [ints(0), ints(n)]', 'b[1]', True), ('element-field', 'b := [Hold(1, ints(n))]', 'b[0].a', True), ('field-element', 'g := Grid([ints(n), ints(0)])', 'g.g[0]', True),
         ('call', 'keep := 1', 'ints(n)', False), ('call-field', 'keep := 1', 'hold1(n).a', False), ('dot-call', 'h := Hold(1, ints(n))', 'h.arr()', True), ('generic-field', 'x := Box(ints(n))', 'x.v', True),
         ('generic-call', 'a := ints(n)', 'same(a)', True), ('param', 'p := ints(n)', 'p', True), ('reassigned', 'a := ints(3)\na = ints(n)', 'a', True), ('field-reassigned', 'h := Hold(1, ints(3))\nh.a = ints(n)', 'h.a', True)]
ACCESS = [('read', 'println(B[i])', lambda n, i: ['%d' % (i * 10 + 3)]), ('write', 'B[i] = 77', lambda n, i: []), ('write-computed', 'B[two(i, 0)] = six(1, 2, 3, 4, 5, 6)', lambda n, i: []),
          ('read-nested', 'println(two(B[i], (B[i] * 2) / 2))', lambda n, i: ['%d' % (2 * (i * 10 + 3))]), ('write-from', 'B[i] = B[i]', lambda n, i: []), ('in-closure', 'q := fn(k: int) {\n    B[k] = 5\n}\nq(i)', lambda n, i: []),
          ('in-loop', 'for k in 0 .. 1 {\n    B[i + k] = 5\n}', lambda n, i: []), ('in-branch', 'if n < 0 {\n    println("neg")\n} else {\n    B[i] = 6\n}', lambda n, i: [])]
for _b, _d, _x, _al in BASES:
    for _a, _t, _e in ACCESS:
        SHAPES.append(('%s/%s' % (_b, _a), _d + '\n' + _t.replace('B', _x), _e))
_OBJ = [('strs', 'x := Box(strs(n))\nx.v[i] = "q"', lambda n, i: []), ('rec-field', 'x := Box(recs(n))\nx.v[i].v = 4', lambda n, i: []), ('rec-in-array', 'x := [recs(n)]\nx[0][i].s = "q"', lambda n, i: []), ('rec-put', 'x := [recs(n)]\nx[0][i] = Rec(1, "")', lambda n, i: []),
        ('fns-put', 'x := Box(fns(n))\nx.v[i] = adder(3)', lambda n, i: []), ('fns-call', 'x := Box(fns(n))\nprintln(x.v[i](2))', lambda n, i: ['%d' % (2 + i)]), ('opts-put', 'x := Box(opts(n))\nx.v[i] = None«int»()', lambda n, i: []), ('bytes-array', 'x := array(n, Bytes(2))\nx[i] = Bytes(3)\nprintln(x[i].length())', lambda n, i: ['3']),
        ('match-bound', 'match Some(ints(n)) {\n    case Some(v):\n        v[i] = 4\n        println(v[i])\n    case None(): println("none")\n}', lambda n, i: ['4']), ('loop-var', 'for e in [ints(n)] {\n    e[i] = 4\n    println(e[i])\n}', lambda n, i: ['4']), ('param-write', 'wr(ints(n), i)', lambda n, i: []), ('bools', 'x := array(n, false)\nx[i] = true\nprintln(x[i])', lambda n, i: ['true'])]
SHAPES += _OBJ
LIB = [
    ('bytes-get', 'b := bts(n)\nprintln(b.get(i))', lambda n, i: ['%d' % (i % 100)]),
    ('bytes-set', 'b := bts(n)\nb.set(i, 99)\nprintln(b.get(i))', lambda n, i: ['99']),
    ('string-byte', 's := bts(n).toString()\nprintln(s.byte(i))', lambda n, i: ['%d' % (i % 100)]),
    ('bytes-get-arg', 'b := bts(n)\nprintln(two(b.get(i), 1))', lambda n, i: ['%d' % (i % 100 + 1)]),
    ('bytes-of-string', 's := bts(n).toString()\nprintln(s.asBytes().get(i))', lambda n, i: ['%d' % (i % 100)]),
    ('closure-byte', 's := bts(n).toString()\nf := fn(k: int) int = s.byte(k)\nprintln(f(i))', lambda n, i: ['%d' % (i % 100)]),
]
PRE = '''
struct rec {
    v: int
    s: string
}
struct hold {
    k: int
    a: []int
}
struct wrap {
    h: hold
    k: int
}
struct grid {
    g: [][]int
}
struct box«T» {
    v: T
}
fn hold1(n: int) hold = Hold(1, ints(n))
fn arr(h: hold) []int = h.a
fn same«T»(t: T) T = t
fn wr(a: []int, i: int) {
    a[i] = 1
}
fn say(k: int) int {
    print("say")
    println(k)
    return k
}
fn two(a: int, b: int) int = a + b
fn six(a: int, b: int, c: int, d: int, e: int, f: int) int = a + b + c + d + e + f
fn at«T»(a: []T, i: int) T = a[i]
fn put«T»(a: []T, i: int, t: T) {
    a[i] = t
}
fn ret(a: []int, i: int) int {
    return a[i]
}
fn a1(n: int) []int = ints(n)
fn ints(n: int) []int {
    a := array(n, 0)
    k := 0
    while k < n {
        a[k] = (k * 10) + 3
        k = k + 1
    }
    return a
}
fn idents(n: int) []int {
    a := intArray(n)
    k := 0
    while k < n {
        a[k] = k
        k = k + 1
    }
    return a
}
fn grid(n: int) [][]int {
    b := array(n, intArray(0))
    k := 0
    while k < n {
        b[k] = intArray(2)
        j := 0
        while j < b[k].length {
            b[k][j] = (k * 100) + j
            j = j + 1
        }
        k = k + 1
    }
    return b
}
fn strs(n: int) []string {
    a := array(n, "")
    k := 0
    while k < n {
        a[k] = "s".append(k.toString())
        k = k + 1
    }
    return a
}
fn recs(n: int) []rec {
    a := array(n, Rec(0, ""))
    k := 0
    while k < n {
        a[k] = Rec(k, "r")
        k = k + 1
    }
    return a
}
fn opts(n: int) []option«int» {
    a := array«int»(n)
    k := 0
    while k < n {
        a[k] = Some(k + 1)
        k = k + 1
    }
    return a
}
fn adder(k: int) fn(int) int = fn(x: int) int = x + k
fn fns(n: int) []fn(int) int {
    a := array(n, adder(0))
    k := 0
    while k < n {
        a[k] = adder(k)
        k = k + 1
    }
    return a
}
fn bts(n: int) bytes {
    b := Bytes(n)
    k := 0
    while k < n {
        b.set(k, k.mod(100))
        k = k + 1
    }
    return b
}
#[RawValues]
fn atoll(s: string) int
'''


def indent(s, n=1):
    return ''.join('    ' * n + l + '\n' for l in s.split('\n'))


def program(literal=None):
    src = PRE
    for k, (name, st, _) in enumerate(SHAPES + LIB):
        if literal is not None:
            st = re.sub(r'\bi\b', literal, st)
        src += 'fn shape%d(n: int, i: int) {\n    println("before")\n%s    println("after")\n}\n' % (k, indent(st))
    src += 'fn main() {\n    k := atoll(getRuntime().args[1])\n    n := atoll(getRuntime().args[2])\n    i := atoll(getRuntime().args[3])\n'
    for k in range(len(SHAPES + LIB)):
        src += '    if k == %d {\n        shape%d(n, i)\n    }\n' % (k, k)
    return src + '}\n'


def eff_len(name, n):
    """Length of the array which is indexed."""
    return n


def job(ctx, item):
    k, n, i, exe = item
    shapes = SHAPES + LIB
    name, st, ok = shapes[k]
    r = core.run_exe(exe, args=['%d' % k, '%d' % n, '%d' % i])
    valid = 0 <= i < n
    out = r.out.decode('utf-8', 'replace')
    v = None
    if b'MON FAULT' in r.err:
        v = mon_check(r)
    elif valid:
        exp = '\n'.join(['before'] + ok(n, i) + ['after']) + '\n'
        if r.rc != 0 or out != exp:
            v = 'access inside the bounds gives %r with status %s instead of %r' % (out[-200:], r.rc, exp)
    else:
        head = 'before\n' + ('say5\n' if name == 'write-effect' else '')
        rest = out[len(head):]
        if not out.startswith(head) or r.rc != 1 or 'after' in rest or 'Panic' not in rest:
            v = 'access outside the bounds does not stop the program with a panic: %r, status %s' % (out[-300:], r.rc)
        elif k < len(SHAPES):
            nums = re.findall(r'-?\d+', rest)
            if str(i) not in nums or str(n) not in nums:
                v = 'panic message does not name index %d and length %d: %r' % (i, n, rest[-300:])
    return dict(item=(name, n, i), v=v and '%s, length %d, index %d: %s' % (name, n, i, v), valid=valid, out=r.out + b'\n---\n' + r.err)


LENGTHS = ['array(L, 1)', 'array(L, "x")', 'intArray(L)', 'stringArray(L, "y")', 'array«int»(L)', 'Bytes(L)', 'NewByteBuffer(L)', 'bts(3).toString(L)', 'bts(3).toString(1, L)', 'array(L, Rec(1, ""))']
BADLEN = [-1, -2, -7, -8, -9, -16, MIN, MIN + 1, MIN + 8, 1 << 61, 1 << 60, (1 << 60) - 1, 1 << 59, MAX, MAX - 7, MAX - 15, MAX - 16, (1 << 61) - 1, (1 << 61) - 2, (1 << 61) - 3, -(1 << 61), -(1 << 60), -(1 << 32)]


def len_job(ctx, item):
    k, l = item
    r = core.run_exe(ctx['lenexe'], args=['%d' % k, '%d' % l], mem=None)
    v = None
    if b'MON FAULT' in r.err:
        v = mon_check(r)
    elif r.rc != 1 or b'Panic' not in r.out or b'after' in r.out or not r.out.startswith(b'before\n'):
        v = 'creation does not stop with a panic: %r, status %s' % (r.out[-200:], r.rc)
    return dict(item=(LENGTHS[k], l), v=v and '%s with L = %d: %s' % (LENGTHS[k], l, v), out=r.out + r.err)


def run(chk):
    b = chk.build(extra_c=['heapmon.c'])
    comp = core.Compiler(b, WRAP)
    src = program()
    c = comp.compile_src(src, os.path.join(chk.scratch, 'dyn'))
    if not c.exe:
        chk.violation('program is not compiled: %s' % c.out[-1500:].decode('utf-8', 'replace'), {'program.clara': src})
        return
    ns = chk.n([0, 1, 2, 7], [0, 1, 2, 3, 7, 16, 100])
    extreme = [MIN, MIN + 1, MAX, MAX - 1, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 32) + 1, -(1 << 32), -(1 << 32) + 1, 1 << 59, 1 << 60, (1 << 60) + 1, (1 << 61), (1 << 61) + 1, -(1 << 61), -(1 << 60), -(1 << 61) + 1, -(1 << 59), 255, 256, 65536, -256, 4096, 1 << 40]
    rng = core.rng_for('C08', chk.seed)
    items = []
    for k in range(len(SHAPES + LIB)):
        for n in ns:
            idx = set(range(-3, n + 3)) if n < 20 else {-2, -1, 0, 1, n - 1, n, n + 1}
            ex = extreme if chk.thorough else rng.sample(extreme, 9)
            idx |= set(ex) | {rng.randint(MIN, MAX)}
            items += [(k, n, i, c.exe) for i in sorted(idx)]
    # the same shapes with the index written as a literal
    for lit in ['0', '1', '2', '7', '-1', '4611686018427387903', '-4611686018427387904', '4294967296', '1152921504606846976', '(0 - 1)'] + ([] if not chk.thorough else ['3', '6', '8', '2147483648', '-2', '2305843009213693952']):
        s2 = program('(%s)' % lit if lit.startswith('-') else lit)
        cl = comp.compile_src(s2, os.path.join(chk.scratch, 'lit%s' % lit.replace('(', '_').replace(')', '_').replace(' ', '')))
        if not cl.exe:
            chk.violation('program with literal index %s is not compiled: %s' % (lit, cl.out[-1500:].decode('utf-8', 'replace')), {'program.clara': s2})
            continue
        i = eval(lit)
        items += [(k, n, i, cl.exe) for k in range(len(SHAPES + LIB)) for n in (0, 1, 2, 7, 8)]
    res = core.pmap(job, {}, items, chunksize=16)
    shapes = chk.coverage.setdefault('shapes', {})
    for r, it in zip(res, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('%s %s' % (r['item'], it[3]))
        chk.note('in_bounds' if r['valid'] else 'out_of_bounds')
        shapes[r['item'][0]] = shapes.get(r['item'][0], 0) + 1
        if r['v']:
            chk.violation(r['v'], {'program.clara': src, 'args.txt': repr(it[:3]), 'actual.txt': r['out']})
    src = PRE + 'fn main() {\n    k := atoll(getRuntime().args[1])\n    l := atoll(getRuntime().args[2])\n    println("before")\n' + ''.join(
        '    if k == %d {\n        x%d := %s\n        println("after")\n    }\n' % (k, k, re.sub(r'\bL\b', 'l', e)) for k, e in enumerate(LENGTHS)) + '}\n'
    cl = comp.compile_src(src, os.path.join(chk.scratch, 'len'))
    if not cl.exe:
        chk.violation('program is not compiled: %s' % cl.out[-1500:].decode('utf-8', 'replace'), {'program.clara': src})
        return
    chk.sample(dict(program=src[-500:]))
    for r in core.pmap(len_job, dict(lenexe=cl.exe), [(k, l) for k in range(len(LENGTHS)) for l in BADLEN], chunksize=8):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw(str(r['item'])); chk.note('bad_lengths')
        if r['v']:
            chk.violation(r['v'], {'program.clara': src, 'actual.txt': r['out']})
    chk.sample(dict(shape=SHAPES[4][1], note='run with n, i from the command line'))
