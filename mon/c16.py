"""Literals keep their value."""
import os, re, shutil
from . import core, hist
from .hist import Hist
from .c12 import PRE, dump
from .lang import MIN, MAX
from .c22 import values

RULE = ('string literals with every byte value, all escape sequences next to each other and next to digits, invalid UTF-8, controls, empty and long contents, and '
        'integer literals (decimal, lower and upper case hexadecimal, leading zeros in hexadecimal, negated) at boundaries and random, in different syntactic positions; '
        'the program reads them back byte by byte and via C. Literals which cannot be represented must be rejected. One evaluation is one literal')


def raw_content(rng, kind=None):
    """(source bytes between the quotes, value)"""
    n = rng.choice([0, 1, 2, 3, 4, 8, 15, 16, 17, 40])
    src, val = b'', b''
    mode = rng.randrange(6) if kind is None else kind
    while len(val) < n:
        k = rng.random()
        if mode == 0:
            c = bytes([rng.randrange(32, 127)])
        elif mode == 1:
            c = bytes([rng.randrange(256)])
        elif mode == 2:
            c = rng.choice('é·€𝄞ßñ日本\u0301\u200b\ufeff').encode()
        elif mode == 3:
            c = rng.choice([b'\\', b'"', b'\n', b'\r', b'0', b'1', b'7', b'n', b'r', b'x', b'u', b'\\'])
        elif mode == 4:
            c = bytes([rng.choice([0, 1, 7, 8, 9, 11, 12, 13, 27, 31, 127, 128, 191, 192, 194, 224, 239, 240, 255])])
        else:
            c = rng.choice([b'%', b'%s', b'%n', b'%%', b'$', b'$x', b'#', b'//', b'/*', b'\'', b'`', b';', b'@', b'.ascii', b'\\"'[:1], b'{', b'}', b'\xc2\xab', b'\t', b'"'])
        val += c
    for b in val:
        c = bytes([b])
        if c == b'\n':
            src += b'\\n'
        elif c == b'\r':
            src += b'\\r' if rng.random() < .7 else c
        elif c == b'\\':
            src += b'\\\\'
        elif c == b'"':
            src += b'\\"'
        else:
            src += c
    return src, val


def intlits(rng, v):
    """Different spellings of one value."""
    a = abs(v)
    f = [('%d', 1), ('0x%x', 1), ('0x%X', 1), ('0x00%x', 1)]
    s = rng.choice(f)[0] % a
    if v < 0:
        s = '-' + rng.choice(['', '', ' ']) + s
    return s


def make(ctx, item):
    kind, seed = item
    rng = core.rng_for('C16', kind, seed, ctx['seed'])
    h = Hist(kind)
    h.decl(PRE)
    u = lambda b: b.decode('utf-8', 'surrogateescape')
    if kind == 'bytes':     # every byte value alone and between digits
        for b in range(256):
            if b in (10, 34, 92):
                continue
            for pat in (bytes([b]), b'1' + bytes([b]) + b'1', bytes([b]) + b'\\\\' + bytes([b])):
                v = pat.replace(b'\\\\', b'\\')
                h.op('byte', 'ds("%s")' % u(pat), dump(v))
    elif kind == 'strings':
        h.decl('struct hold {\n    s: string\n    i: int\n}\nfn lits(a: string, b: string) string = a.append(b)\n')
        for k in range(40):
            s, v = raw_content(rng)
            lit = '"%s"' % u(s)
            c = rng.randrange(9)
            cs = [v] if 0 not in v and b'\n' not in v else None
            if c == 0:
                h.op('argument', 'ds(%s)' % lit, dump(v))
            elif c == 1:
                h.op('variable', 'v%d := %s\nds(v%d)' % (k, lit, k), dump(v))
            elif c == 2:
                s2, v2 = raw_content(rng)
                h.op('array', 'for x in [%s, "%s", %s] {\n    ds(x)\n}' % (lit, u(s2), lit), dump(v), dump(v2), dump(v))
            elif c == 3:
                h.op('field', 'h%d := Hold(%s, %d)\nds(h%d.s)' % (k, lit, k, k), dump(v))
            elif c == 4:
                h.decl('fn ret%d() string = %s\n' % (k, lit))
                h.op('return', 'ds(ret%d())\nds(ret%d())' % (k, k), dump(v), dump(v))
            elif c == 5:
                h.op('closure', 'c%d := fn() string = %s\nds(c%d())' % (k, lit, k), dump(v))
            elif c == 6:
                s2, v2 = raw_content(rng)
                h.op('ternary', 'ds(true ? %s : "%s")\nds(false ? %s : "%s")' % (lit, u(s2), lit, u(s2)), dump(v), dump(v2))
            elif c == 7:
                s2, v2 = raw_content(rng)
                h.op('append', 'ds(lits(%s, "%s"))\nprintln(%s.length)\nbb(%s.Equals(%s))' % (lit, u(s2), lit, lit, lit), dump(v + v2), len(v), 'T')
            elif cs:
                h.op('via C', 'cs(%s)' % lit, v)
    elif kind == 'long':
        for n in (255, 256, 1023, 4096, 20000):
            v = bytes(rng.choice(b'abcdefghij 0123456789') for _ in range(n))
            h.op('long', 's%d := "%s"\nprintln(s%d.length)\nprintln(s%d)' % (n, u(v), n, n), n, v)
    elif kind == 'many':
        for n in range(600):
            v = b'%d:' % n + raw_content(rng, 0)[1]
            v = v.replace(b'\\', b'/').replace(b'"', b'\'')
            h.op('many', 'cs("%s")' % u(v), v)
    else:
        h.decl('struct hi {\n    a: int\n    b: int\n}\nfn idn(a: int) int = a\nfn add(a: int, b: int) = println(a + b)\n')
        vs = values(rng, 60)
        rng.shuffle(vs)
        for k, v in enumerate(vs[:160] + [MIN, MAX, MIN + 1, 0]):
            l = intlits(rng, v)
            c = rng.randrange(9)
            if c == 0:
                h.op('int argument', 'println(%s)' % l, v)
            elif c == 1:
                h.op('int variable', 'v%d := %s\nprintln(v%d)' % (k, l, k), v)
            elif c == 2:
                h.op('int array', 'for x in [%s, %s, 5] {\n    println(x)\n}' % (l, l), v, v, 5)
            elif c == 3:
                h.op('int field', 'h%d := Hi(%s, %s)\nprintln(h%d.b)\nh%d.a = %s\nprintln(h%d.a)' % (k, l, l, k, k, l, k), v, v)
            elif c == 4:
                h.decl('fn ret%d() int = %s\nfn retb%d() int {\n    return %s\n}\n' % (k, l, k, l))
                h.op('int return', 'println(ret%d())\nprintln(retb%d())' % (k, k), v, v)
            elif c == 5:
                h.op('int closure', 'c%d := fn() int = %s\nprintln(c%d())' % (k, l, k), v)
            elif c == 6:
                h.op('int ternary', 'println(true ? %s : 1)\nprintln(false ? 1 : %s)' % (l, l), v, v)
            elif c == 7:
                h.op('int compare', 'println(idn(%s) == (%s))\nprintln(idn(%s) < (%s))' % (l, l, l, l), 'true', 'false')
            elif MIN < v - 1 and v + 1 < MAX:
                h.op('int operand', 'add(%s, idn(1))\nprintln(idn(1) + (%s))' % (l, l), v + 1, v + 1)
    return h


BAD = [b'x := %d' % (MAX + 1), b'x := %d' % (1 << 63), b'x := %d' % (1 << 64), b'x := %d' % 10 ** 40, b'x := -%d' % (MAX + 2), b'x := 0x%x' % (MAX + 1), b'x := 0x7fffffffffffffff',
       b'x := 0xffffffffffffffff', b'x := -0x4000000000000001', b'x := 0x', b'x := 0xg', b'x := "\\t"', b'x := "\\0"', b'x := "\\x41"', b'x := "\\\'"', b'x := "a\\qb"', b'x := "abc', b'x := "abc\\"',
       b'x := "a\nb"', b'x := "\\', b'x := "\\u00e9"', b'x := [1, %d]' % (MAX + 1), b'println(%d)' % (MAX + 1), b'x := 1 + %d' % (MAX + 1), b'x := "\\ n"',
       b'x := true ? %d : 1' % (MAX + 1), b'x := fn() int = %d' % (MAX + 1), b'x := [1][%d]' % (MAX + 1), b'f := fn() string = "\\e"', b'x := 1234567890123456789012', b'x := "\\\\\\"', b'x := "\\N"', b'x := "\\R"']


# every position in which an integer or a string literal can stand: L is the literal
POS = ['for i in L .. 3 {\n}', 'for i in 0 .. L {\n}', 'for i in [L] {\n}', 'for i in 0 .. 1 {\n    println(L)\n}', 'if L == 1 {\n}', 'if false {\n} elseif 1 < L {\n}', 'if false {\n} else {\n    x := L\n}', 'if true {\n    x := L\n}',
       'while L == 2 {\n}', 'while false {\n    println(L)\n}', 'match Pa(L) {\n    case Pa(v):\n    case Pb():\n}', 'match Pa(1) {\n    case Pa(v):\n        v = L\n    case Pb():\n}', 'match Pa(1) {\n    case Pa(v):\n        println(v)\n    case Pb():\n        println(1)\n        println(L)\n}',
       'x := [1, 2]\nx[L] = 1', 'x := [1, 2]\nx[0] = L', 'x := [[1], [2]]\nx[0][L] = 1', 'println([1, 2][L])', 'x := Ps(L, 1)', 'x := Ps(1, L)', 'x := Ps(1, 2)\nx.a = L', 'x := Ps(1, 2)\nx.q(L)', 'Ps(1, L).q(1)', 'x := 1\nx = L', 'idn(idn(idn(L)))', 'L.idn()',
       'x := idg(L)', 'x := idg«int»(L)', 'x := -idn(L)', 'x := ~(L)', 'x := (1 + (2 * (3 - L)))', 'x := L << 1', 'x := 1 & L | 2', 'x := true and L == 1', 'x := not (L == 1)', 'x := L == 1 ? 1 : 2', 'x := true ? L : 2', 'x := false ? 1 : L', 'x := true ? (true ? 1 : L) : 1',
       'f := fn(a: int) int = a\nf(L)', 'f := fn() int = L', 'f := fn() int {\n    return L\n}', 'f := fn() fn() int = fn() int = L', 'f := fn(p: pe) int {\n    match p {\n        case Pa(v): return v\n        case Pb(): return L\n    }\n}',
       'f := fn(p: pe) int {\n    match p {\n        case Pa(v):\n            println(v)\n            return L\n        case Pb():\n            return 1\n    }\n}', 'f := [fn() int = L]', 'printf("%d", L)', 'println([L][0])', 'println(["a", "b"][L])', 'x := [[L]]', 'x := Some(L)', 'x := Some([L])',
       '} fn zz() int = L\nfn zy() {', '} fn zz() int {\n    return L\n} fn zy() {', '} fn zz(p: pe) int {\n    match p {\n        case Pa(v): return v\n        case Pb(): return L\n    }\n} fn zy() {', '} fn zz(p: pe) int {\n    match p {\n        case Pa(v):\n            println(v)\n            return L\n        case Pb(): return 1\n    }\n} fn zy() {',
       '} fn zz(p: int) int {\n    if p == 1 {\n        return 1\n    } else {\n        println(1)\n        return L\n    }\n} fn zy() {', '} fn zz(p: int) int {\n    if p == 1 {\n        return 1\n    } elseif p == 2 {\n        return L\n    } else {\n        return 3\n    }\n} fn zy() {', '} fn zz«T»(a: T) int = L\nfn zy() {\n    zz(1)', '} fn zz«T»(a: T) int = L\nfn zy() {', '} fn zz() fn() int = fn() int = L\nfn zy() {']
PPRE = 'struct ps {\n    a: int\n    b: int\n}\nenum pe {\n    Pa(v: int)\n    Pb()\n}\nfn idn(a: int) int = a\nfn idg«T»(a: T) T = a\nfn q(p: ps, i: int) int = i\n'


def pos_job(ctx, i):
    """A position accepts a literal, and does not accept one which cannot be represented."""
    d = os.path.join(ctx['scratch'], 'pos%d' % i)
    res = []
    for lit, ok in (('1', True), (str(MAX), True), (str(MAX + 1), False), ('-%d' % -MIN, True), ('-%d' % (1 - MIN), False), ('0x%x' % (MAX + 1), False), (str(1 << 64), False)):
        body = re.sub(r'\bL\b', '(%s)' % lit if lit[0] == '-' else lit, POS[i])
        src = PPRE + 'fn main() {\n' + body + '\n}\n'
        c = ctx['comp'].compile_src(src.encode(), d)
        n = len(core.error_lines(c.out))
        v = None
        if ok and not (c.rc == 0 and c.exe):
            v = 'literal %s is not accepted in %r' % (lit, POS[i])
        if not ok and (c.exe or c.rc != 1 or not n):
            v = 'literal %s, which cannot be represented, is not reported in %r (status %s, executable: %s)' % (lit, POS[i], c.rc, bool(c.exe))
        res.append((lit, v, src.encode(), c.out))
        shutil.rmtree(d, ignore_errors=True)
    return dict(i=i, res=res)


def bad_job(ctx, i):
    d = os.path.join(ctx['scratch'], 'bad%d' % i)
    src = b'fn main() {\n    ' + BAD[i] + b'\n}\n'
    c = ctx['comp'].compile_src(src, d)
    errs = core.error_lines(c.out)
    v = None
    if c.exe or c.rc != 1 or not errs:
        v = 'literal which cannot be represented is not reported: %r (status %s, %d errors, executable: %s)' % (BAD[i], c.rc, len(errs), bool(c.exe))
    shutil.rmtree(d, ignore_errors=True)
    return dict(i=i, v=v, src=src, out=c.out)


def run(chk):
    items = [('bytes', 0), ('long', 0), ('many', 0)] + [(k, i) for i in range(chk.n(60, 1500)) for k in ('strings', 'ints')]
    ctx = hist.explore(chk, make, items, heap=False)
    for r in core.pmap(pos_job, ctx, range(len(POS))):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for lit, v, src, out in r['res']:
            chk.saw('pos%d %s' % (r['i'], lit)); chk.note('literal_positions')
            if v:
                chk.violation(v, {'program.clara': src, 'actual.txt': out})
    for r in core.pmap(bad_job, ctx, range(len(BAD))):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('bad%d' % r['i']); chk.note('rejected_literals')
        if r['v']:
            chk.violation(r['v'], {'program.clara': r['src'], 'actual.txt': r['out']})
