"""Calls to C functions: probes linked into the program check the call and overwrite everything a C function may change."""
import hashlib, os, re, shutil
from . import core, gen, diff
from .lang import *

RULE = ('(1) random programs whose trace functions are C probes, called from every expression position; (2) random calls of probes with 0 to 6 arguments (integers, strings, bytes, arrays, '
        'nested calls) with and without raw values, from functions with different numbers of variables; (3) variadic calls; (4) clock functions with injected times. Each probe checks stack '
        'alignment, direction flag and al, then overwrites all caller-saved registers, flags and the memory below the stack pointer. One evaluation is one test function, compared with the reference trace')

LD = '-Wl,--wrap=printf,--wrap=gettimeofday'

TR = '#[RawValues]\nfn tr(i: int, v: int) int\n'
WI = '#[RawValues]\nfn wi(i: int, n: int) int\n'
TRB = '#[RawValues]\nfn trbx(i: int, v: int) nothing\nfn trb(i: int, v: bool) bool {\n    trbx(i, v ? 1 : 0)\n    return v\n}\n'
TRS = '#[RawValues]\nfn trsx(i: int, v: string) nothing\nfn trs(i: int, v: string) string {\n    trsx(i, v)\n    return v\n}\n'


def abi_check(r, c=None):
    if b'MON ABI' in r.err:
        i = r.err.index(b'MON ABI')
        return r.err[i:].split(b'\n')[0].decode()
    if b'ABI END' not in r.err:
        return 'program ended without the monitor report (status %s)' % r.rc
    return None


def calls(err):
    m = re.search(rb'ABI END calls=(\d+) variadic=(\d+)', err)
    return (int(m[1]), int(m[2])) if m else (0, 0)


def check(ctx, src, exp, d):
    v, r = diff.check_program(ctx, src, exp, d, extra_check=abi_check)
    if r is not None and b'MON ABI' in r.err:
        v = abi_check(r)
    return v, r


def genjob(ctx, item):
    label, prof, seed = item
    rng = core.rng_for('C23', label, seed)
    prog = gen.make(rng, prof, 30000)
    g = prog.gen
    g.tr.text, g.wi.text, g.trb.text, g.trs.text = TR, WI, TRB, TRS
    src, exp = prog.source(), prog.expected_output()
    d = os.path.join(ctx['scratch'], 'p-%s-%s' % (label, seed))
    v, r = check(ctx, src, exp, d)
    shutil.rmtree(d, ignore_errors=True)
    res = dict(label=label, seed=seed, tests=len(prog.tests), events=sum(len(x) for x in prog.expected), allocs=prog.allocs, stats=diff.node_stats(prog),
               key=hashlib.sha1(src.encode('utf-8', 'surrogateescape')).hexdigest(), v=v, calls=calls(r.err) if r else (0, 0))
    if v:
        res.update(src=src, exp=exp, out=(r.out + b'\n--- stderr\n' + r.err) if r else b'')
    return res


# ----------------------------------------------------------------------------------------------------------------------

DECL = '''
#[RawValues]
fn p0() int
#[RawValues]
fn p1(a: int) int
#[RawValues]
fn p2(a: int, b: int) int
#[RawValues]
fn p3(a: int, b: int, c: int) int
#[RawValues]
fn p4(a: int, b: int, c: int, d: int) int
#[RawValues]
fn p5(a: int, b: int, c: int, d: int, e: int) int
#[RawValues]
fn p6(a: int, b: int, c: int, d: int, e: int, f: int) int
#[RawValues]
fn ps(s: string) nothing
#[RawValues]
fn psi(s: string, i: int, t: string) int
#[RawValues]
fn pb(b: bytes, n: int) nothing
#[RawValues]
fn pfill(b: bytes, n: int, v: int) nothing
#[RawValues]
fn pswap(a: []int, i: int, j: int) nothing
#[RawValues]
fn pmix(a: int, s: string, x: []int, b: bytes, c: int, t: string) int
#[RawValues]
fn pres(i: int) int
fn pw(a: int, s: string, b: int) nothing
fn same(a: int) int
fn same(a: string) string
fn same(a: bytes) bytes
fn same(a: []int) []int
fn same(a: bool) bool
fn same(a: rec) rec
#[RawValues]
fn rsame(a: bool) bool
#[RawValues]
fn rsame(a: rec) rec
#[RawValues]
fn rsame(a: fn(int) int) fn(int) int
#[RawValues]
fn rsame(a: option«int») option«int»
#[RawValues]
fn rsecond(a: int, b: bool) bool
#[RawValues]
fn rsecond(a: string, b: rec) rec
#[RawValues]
fn rsixth(a: int, b: string, c: bool, d: bytes, e: []int, f: bool) bool
fn second(a: string, b: int) int
fn second(a: int, b: string) string
fn second(a: bool, b: rec) rec
fn sixth(a: int, b: string, c: bool, d: bytes, e: []int, f: int) int
fn sixth(a: int, b: int, c: int, d: int, e: int, f: string) string
struct rec {
    a: int
    b: string
}
fn show(a: []int) {
    for x in a {
        printf("e %lld\\n", x)
    }
}
fn mkb(n: int, v: int) bytes {
    b := Bytes(n)
    for i in 0 .. n {
        b.set(i, v + i)
    }
    return b
}
'''
RESULTS = [0, 1, -1, 4611686018427387903, -4611686018427387904, 2147483647, 2147483648, -2147483648, 4294967295, 4294967296, -4294967296, 1 << 61, 255, 256, 65536]
INTS = RESULTS + [2, 3, 7, -2, -128, 127, 1 << 31, (1 << 40) + 5, -(1 << 50)]
RET = [lambda a: 42, lambda a: a[0], lambda a: a[1], lambda a: a[2], lambda a: a[0], lambda a: a[4], lambda a: a[5]]


def wrap63(v):
    v &= (1 << 63) - 1
    return v - (1 << 63) if v >> 62 else v


class Direct:
    """A random function made of probe calls; run() of every node is the reference."""

    def __init__(self, rng):
        self.r, self.out = rng, []
        self.ints, self.strs = {}, {}
        self.caps = []

    def hex(self, b):
        return b.hex() or '-'

    def lit(self, v):
        return '%d' % v if v >= 0 else '(0 - %d)' % -v if v != -(1 << 62) else '((0 - %d) - 1)' % ((1 << 62) - 1)

    # expressions: (source, value) evaluated in program order, events appended to self.out
    def int(self, d):
        r = self.r
        k = r.randrange(11) if d > 0 else r.randrange(3)
        if k <= 1 and self.ints:
            n = r.choice(sorted(self.ints))
            return n, self.ints[n]
        if k <= 2:
            v = r.choice(INTS) if r.random() < .6 else r.randint(-1000, 1000)
            return self.lit(v), v
        if k <= 5:
            n = r.randrange(7)
            xs = [self.int(d - 1) for _ in range(n)]
            self.out.append(' '.join(['p%d' % n] + ['%d' % v for _, v in xs]))
            if n and xs[0][0].isidentifier() and r.random() < .3:
                return '%s.p%d(%s)' % (xs[0][0], n, ', '.join(s for s, _ in xs[1:])), RET[n]([v for _, v in xs])
            return 'p%d(%s)' % (n, ', '.join(s for s, _ in xs)), RET[n]([v for _, v in xs])
        if k == 6:
            i = r.randrange(len(RESULTS))
            return 'pres(%d)' % i, RESULTS[i]
        if k == 7:
            s, t = self.str(d - 1)
            i, v = self.int(d - 1)
            u, w = self.str(d - 1)
            self.out.append('psi %s %d %s' % (self.hex(t), v, self.hex(w)))
            return 'psi(%s, %s, %s)' % (s, i, u), len(t) + len(w)
        if k == 8:
            op = r.choice(['+', '-', '*', '&', '|', '^'])
            a, v = self.int(d - 1)
            b, w = self.int(d - 1)
            f = {'+': v + w, '-': v - w, '*': v * w, '&': v & w, '|': v | w, '^': v ^ w}[op]
            return '((%s) %s (%s))' % (a, op, b), wrap63(f)
        if k == 9:
            a, v = self.int(d - 1)
            if r.random() < .5:
                return 'same(%s)' % a, v
            s, t = self.str(d - 1)
            # arguments are evaluated left to right
            if r.random() < .5:
                b, w = self.int(d - 1)
                return '(%s + second(%s, %s))' % (a, s, b), wrap63(v + w)
            n = r.randrange(1, 4)
            b, w = self.int(d - 1)
            return 'sixth(%s, %s, same(true), mkb(%d, 1), same([1, 2]), %s)' % (a, s, n, b), w
        # division and shifts use fixed registers
        a, v = self.int(d - 1)
        b = r.choice([2, 3, 7, 10])
        if r.random() < .5:
            q = abs(v) // b
            return '((%s) / same(%d))' % (a, b), -q if v < 0 else q
        return '((%s) >> same(%d))' % (a, b), v >> b

    def str(self, d):
        r = self.r
        k = r.randrange(6) if d > 0 else r.randrange(3)
        if k == 0 and self.strs:
            n = r.choice(sorted(self.strs))
            return n, self.strs[n]
        if k <= 2:
            b = bytes(r.choice(b'abcxyz %0129_') for _ in range(r.choice([0, 1, 2, 7, 8, 9, 20])))
            return '"%s"' % b.decode(), b
        if k == 3:
            a, v = self.str(d - 1)
            b, w = self.str(d - 1)
            return '(%s).append(%s)' % (a, b), v + w
        if k == 4:
            a, v = self.str(d - 1)
            return 'same(%s)' % a, v
        i, v = self.int(d - 1)
        s, t = self.str(d - 1)
        if r.random() < .6:
            return 'second(%s, %s)' % (i, s), t
        return 'sixth(%s, 1, 2, 3, 4, %s)' % (i, s), t

    def stmt(self, k):
        r = self.r
        c = r.randrange(15)
        d = r.randint(1, 3)
        if c <= 2:
            s, v = self.int(d)
            n = 'v%d' % k
            self.ints[n] = v
            return '%s := %s' % (n, s)
        if c == 3:
            s, v = self.str(d)
            n = 'v%d' % k
            self.strs[n] = v
            return '%s := %s' % (n, s)
        if c == 4:
            s, v = self.str(d)
            self.out.append('ps ' + self.hex(v))
            return 'ps(%s)' % s
        if c == 5:
            n, v = r.randrange(0, 20), r.randrange(0, 100)
            self.out.append('pb ' + self.hex(bytes((v + i) & 255 for i in range(n))))
            return 'pb(mkb(%d, %d), %d)' % (n, v, n)
        if c == 6:
            n, v = r.randrange(1, 20), r.randrange(0, 256)
            m = r.randrange(0, n + 1)
            data = bytearray(i for i in range(n))
            self.out.append('pfill %d %d' % (m, v))
            data[:m] = bytes([v]) * m
            self.out.append('pb ' + self.hex(bytes(data)))
            return 'b%d := mkb(%d, 0)\n    pfill(b%d, %d, %d)\n    pb(b%d, %d)' % (k, n, k, m, v, k, n)
        if c == 7:
            xs = [self.int(1) for _ in range(r.randint(1, 5))]
            i, j = r.randrange(len(xs)), r.randrange(len(xs))
            vs = [v for _, v in xs]
            vs[i], vs[j] = vs[j], vs[i]
            self.out.append('pswap %d %d' % (i, j))
            self.out += ['e %d' % v for v in vs]
            return 'a%d := [%s]\n    pswap(a%d, %d, same(%d))\n    show(a%d)' % (k, ', '.join(s for s, _ in xs), k, i, j, k)
        if c == 8:
            a, v = self.int(d)
            s, sv = self.str(1)
            b = r.randrange(0, 90)
            e, w = self.int(d)
            t, tv = self.str(d)
            self.out.append('pmix %d %s %s %d %s' % (v, self.hex(sv), bytes([b, b + 1, b + 2]).hex(), w, self.hex(tv)))
            self.out += ['p1 %d' % wrap63(v - w), 'e 8', 'e 7', 'e 9']
            return 'x%d := same([7, 8, 9])\n    p1(pmix(%s, %s, x%d, mkb(3, %d), %s, %s))\n    show(x%d)' % (k, a, s, k, b, e, t, k)
        if c == 9:
            a, v = self.int(d)
            s, sv = self.str(d)
            b, w = self.int(d)
            t, tv = self.str(1)
            self.out.append('f %d %s %d %s %x' % (v, sv.decode(), w, tv.decode(), 255))
            return 'printf("f %%lld %%s %%lld %%s %%llx\\n", %s, %s, %s, %s, 255)' % (a, s, b, t)
        if c == 10:
            a, v = self.int(d)
            s, sv = self.str(d)
            self.out.append('f %d %s' % (v, sv.decode()))
            return 'r%d := second(same(true), same(Rec(%s, %s)))\n    printf("f %%lld %%s\\n", r%d.a, r%d.b)' % (k, a, s, k, k)
        if c == 14:
            # values which are not converted, next to ones which are
            a, v = self.int(0)
            s, sv = self.str(0)
            b = r.random() < .5
            x = 'p1' if b else 'p0'
            k2 = r.randrange(7)
            e = ['rsame(%s)', 'rsecond(1, %s)', 'rsixth(1, "a", false, mkb(1, 1), [1], %s)', 'rsame(rsame(%s))', 'not rsame(not %s)', 'rsame(rsecond(9, %s))', 'same(rsame(%s))'][k2] % r.choice([str(b).lower(), '(1 %s 2)' % ('<' if b else '>')])
            self.out += ['f %s' % ('yes' if b else 'no'), 'f %s' % ('T' if b else 'F'), 'f %d %s' % (v, sv.decode()), 'f %d' % (5 + 7), 'f 77']
            return ('z%d := %s\n    printf("f %%s\\n", z%d == true ? "yes" : "no")\n    if z%d {\n        printf("f T\\n")\n    } else {\n        printf("f F\\n")\n    }\n    y%d := %s(Rec(%s, %s))\n    printf("f %%lld %%s\\n", y%d.a, y%d.b)\n'
                    '    g%d := rsame(fn(w: int) int = w + 5)\n    printf("f %%lld\\n", g%d(7))\n    match rsame(Some(77)) {\n        case Some(w%d): printf("f %%lld\\n", w%d)\n        case None(): printf("none\\n")\n    }') % (
                        k, e, k, k, k, 'rsame', a, s, k, k, k, k, k, k)
        if c == 11 and self.ints:
            n = r.choice(sorted(self.ints))
            a, v = self.int(d)
            self.ints[n] = v
            return '%s = %s' % (n, a)
        if c == 12:
            a, v = self.int(d)
            s, sv = self.str(d)
            b, w = self.int(d)
            # integers are passed as they are represented in memory, strings as a pointer to their length
            self.out.append('pw %d %d %s' % (2 * v + 1, 2 * w + 1, self.hex(sv)))
            return 'pw(%s, %s, %s)' % (a, s, b)
        # from a closure
        n = r.choice(sorted(self.ints)) if self.ints else None
        a, v = self.int(1) if not n else (n, self.ints[n])
        b, w = (self.lit(5), 5)
        self.out.append('p3 %d %d %d' % (v, w, v))
        self.out.append('p1 %d' % v)
        if n:
            return 'c%d := fn(q: int) int = p3(%s, q, same(%s))\n    p1(c%d(%s))' % (k, n, n, k, b)
        return 'c%d := fn(q: int, u: int) int = p3(q, u, same(q))\n    p1(c%d(%s, %s))' % (k, k, a, b)


def dirjob(ctx, seed):
    rng = core.rng_for('C23', 'direct', seed)
    fns, exp = [], []
    n = 8
    for t in range(n):
        g = Direct(rng)
        body = [g.stmt(k) for k in range(rng.randint(3, 14))]
        # events of dot calls are recorded after those of their arguments, as they are executed
        k = rng.randrange(0, 6)
        pv = [rng.choice(INTS) for _ in range(k)]
        for j, v in enumerate(pv):
            body.append('p1(q%d)' % j)
            g.out.append('p1 %d' % v)
        fns.append(('fn t%d(%s) {\n    %s\n}\n' % (t, ', '.join('q%d: int' % j for j in range(k)), '\n    '.join(body)), 't%d(%s)' % (t, ', '.join(g.lit(v) for v in pv))))
        exp.append('# %d' % t)
        exp += g.out
    src = DECL + '\n'.join(f for f, _ in fns) + 'fn main() {\n' + ''.join('    printf("# %d\\n")\n    %s\n' % (i, c) for i, (_, c) in enumerate(fns)) + '}\n'
    exp = ('\n'.join(exp) + '\n').encode()
    d = os.path.join(ctx['scratch'], 'd-%s' % seed)
    v, r = check(ctx, src, exp, d)
    shutil.rmtree(d, ignore_errors=True)
    return dict(label='direct', seed=seed, tests=n, events=exp.count(b'\n'), allocs=0, stats={}, key='direct%s' % seed, v=v, src=src, exp=exp,
                out=(r.out + b'\n--- stderr\n' + r.err) if r else b'', calls=calls(r.err) if r else (0, 0))


PANIC = [('a[i]', 'int'), ('h.a[i]', 'int'), ('b[0][i]', 'int'), ('s[i].length', 'int'), ('r[i].a', 'int'), ('mkb(3, 1).get(i)', 'int'), ('"abc".byte(i)', 'int'), ('boom(i)', 'int')]


def panicjob(ctx, seed):
    """The panic itself calls C functions: from any expression position, with any number of variables and temporaries."""
    rng = core.rng_for('C23', 'panic', seed)
    x = rng.choice(PANIC)[0]
    for _ in range(rng.randrange(6)):
        x = rng.choice(['1 + (%s)', '(%s) - 1', 'p2(1, %s)', 'p6(1, 2, 3, 4, 5, %s)', 'p3(q0, %s, 2)', '(2 * 3) + (7 / (%s))', 'id6(1, 2, p0(), 4, %s, 6)', '[1, %s, 3][0]', 'true ? (%s) : 1', 'Rec(%s, "x").a', 'fn(w: int) int { return w }(%s)', 'fn(w: int) int { return %s }(1)', 'id(%s)', '(1 << 2) + (%s)']) % x
    k = rng.randrange(0, 7)
    loc = rng.randrange(0, 8)
    st = rng.choice(['z := X', 'if (X) == 1 {\n        p0()\n    }', 'while (X) == 1 {\n        p0()\n    }', 'for u in [1, 2] {\n        p1(X)\n    }', 'a[i] = X', 'a[X] = 1', 'h.a[i] = 5', 'r[i] = Rec(1, "a")', 'p1(X)', 'ps(s[i])', 'b[0][i] = p0()', 'match Some(X) {\n        case Some(v): p1(v)\n        case None():\n    }', 'return X']).replace('X', x)
    ret = ' int' if st.startswith('return') else ''
    src = DECL + '''
struct hold {
    a: []int
}
fn id(a: int) int = a
fn id6(a: int, b: int, c: int, d: int, e: int, f: int) int = e
fn boom(i: int) int {
    panic("boom")
    return i
}
fn f(%s)%s {
    i := %s
    a := [1, 2]
    h := Hold([1])
    b := [[1], [2]]
    s := ["a", "b"]
    r := [Rec(1, "a")]
    q0 := 7
%s    %s
}
fn main() {
    %s
    printf("not reached\\n")
}
''' % (', '.join('k%d: int' % j for j in range(k)), ret, rng.choice(['5', '-1', '2', '1000000007']) if 'mkb' not in x else rng.choice(['5', '-1', '1000000007']),
       ''.join('    l%d := %d\n' % (j, j) for j in range(loc)), st, ('f(%s)' % ', '.join('%d' % j for j in range(k))))
    if '"abc"' in x:
        src = src.replace('i := 2', 'i := 3')
    d = os.path.join(ctx['scratch'], 'x-%s' % seed)
    c = ctx['comp'].compile_src(src, d)
    v, r = None, None
    if not c.exe:
        v = 'valid program is not compiled (status %s): %s' % (c.rc, c.out[-400:].decode('utf-8', 'replace'))
    else:
        r = core.run_exe(c.exe)
        if b'MON ABI' in r.err:
            v = abi_check(r)
        elif r.rc != 1 or b'Panic' not in r.out or b'not reached' in r.out:
            v = 'the program does not end with a panic: status %s, %r' % (r.rc, r.out[-200:])
        else:
            v = abi_check(r)
    shutil.rmtree(d, ignore_errors=True)
    return dict(seed=seed, v=v, src=src, out=(r.out + b'\n--- stderr\n' + r.err) if r else c.out, st=st)


CLOCK = '''
fn main() {
    t := Now()
    println(t.sec)
    println(t.usec)
    println(t.toMicros())
    println(t.toMillis())
    println(t.toSecs())
    u := Now()
    println(u.toMicros() - t.toMicros())
    println(Time(12, 345678).toMicros())
    println(Time(12, 345678).toMillis())
    println(Time(12, 999999).toSecs())
}
'''


def clockjob(ctx, item):
    s, u = item
    r = core.run_exe(ctx['exe'], env=dict(core.RUN_ENV, MON_TIME='%d.%06d' % (s, u)))
    m = s * 1000000 + u
    exp = '%d\n%d\n%d\n%d\n%d\n0\n12345678\n12345\n12\n' % (s, u, m, m // 1000, m // 1000000)
    v = None
    if r.out != exp.encode() or r.rc != 0:
        v = 'output %r instead of %r, status %s' % (r.out, exp, r.rc)
    return dict(item=item, v=abi_check(r) or v, out=r.out)


def run(chk):
    b = chk.build(extra_c=['abi.c'])
    ctx = dict(comp=core.Compiler(b, LD), scratch=chk.scratch)
    P = gen.Prof
    profs = [('mixed', P(w_trace=4)), ('calls', P(w_trace=4, w_call=5, funcs=10, depth=5, nodes=50)), ('closures', P(w_trace=4, w_closure=4)), ('loops', P(w_trace=3, w_loop=2, w_match=2, nest=3))]
    items = []
    for (l, p), n in zip(profs, chk.n([50, 50, 40, 40], [500, 500, 400, 400])):
        items += [(l, p, '%d.%d' % (chk.seed, i)) for i in range(n)]
    res = core.pmap(genjob, ctx, items)
    res += core.pmap(dirjob, ctx, ['%d.%d' % (chk.seed, i) for i in range(chk.n(160, 2000))])
    for r in res:
        if 'calls' in r:
            chk.note('probe_calls', r['calls'][0])
            chk.note('variadic_calls', r['calls'][1])
            if r['label'] == 'direct' and r['seed'].endswith('.0'):
                chk.sample(dict(program=r['src'][-1500:], events=r['exp'].decode().split('\n')[:10]))
    diff.collect(chk, res)
    for r in core.pmap(panicjob, ctx, ['%d.%d' % (chk.seed, i) for i in range(chk.n(100, 1500))]):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('panic %s' % r['seed'])
        chk.note('panicking_programs')
        if r['v']:
            chk.violation('panic %s (%s): %s' % (r['seed'], r['st'], r['v']), {'program.clara': r['src'], 'actual.txt': r['out']})
    c = ctx['comp'].compile_src(CLOCK, os.path.join(chk.scratch, 'clock'))
    if not c.exe:
        chk.violation('clock program is not compiled: %s' % c.out[-800:].decode('utf-8', 'replace'), {'program.clara': CLOCK})
        return
    rng = core.rng_for('C23', 'clock', chk.seed)
    times = [(0, 0), (0, 1), (0, 999999), (1, 0), (59, 999), (2147483647, 999999), (2147483648, 0), (4294967295, 999999), (4294967296, 1), (1700000000, 1000), (1700000000, 999), (253402300799, 999999), (4000000000000, 5)]
    times += [(rng.randrange(1 << rng.randint(1, 41)), rng.randrange(1000000)) for _ in range(chk.n(40, 2000))]
    for r in core.pmap(clockjob, dict(exe=c.exe), times, chunksize=8):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('clock %d %d' % r['item'])
        chk.note('clock_readings', 2)
        if r['v']:
            chk.violation('time %d.%06d: %s' % (r['item'][0], r['item'][1], r['v']), {'program.clara': CLOCK, 'actual.txt': r['out']})
    if not chk.violations and chk.coverage.get('probe_calls', 0) < 1000:
        chk.inconclusive.append('probes were called only %d times' % chk.coverage.get('probe_calls', 0))
