"""Number printing, conversions, mod and the FNV-1a hash against a model."""
from . import core, hist
from .hist import Hist
from .lang import wrap, tdiv, MIN, MAX
from .c12 import content

RULE = ('value sweep: every power of two and ten, their neighbours and negations, the extremes and random 63-bit values are printed with print, println, toString, '
        'toBinary, printHex and printHexPadded; mod for pairs of them; booleans; fnv1a for strings of arbitrary bytes built at run time. '
        'One evaluation is one value (pair, string)')


def lit(v):
    return '%d' % v if v >= 0 else '(0 - %d)' % -v if v > MIN else '((0 - %d) - 1)' % MAX


def values(rng, n):
    s = set(range(-20, 21)) | {MIN, MIN + 1, MAX, MAX - 1}
    for i in range(63):
        for d in (-1, 0, 1):
            s.add(wrap((1 << i) + d)); s.add(wrap(-(1 << i) + d))
    for i in range(19):
        for d in (-1, 0, 1):
            for m in (1, -1, 9, -9, 5):
                v = 10 ** i * m + d
                if MIN <= v <= MAX:
                    s.add(v)
    for b in (0xff, 0x80, 0xffffffff, 0x80000000, 0x7fffffff, 0x5555555555555555, 0x2aaaaaaaaaaaaaaa):
        s.add(wrap(b)); s.add(wrap(-b))
    while n > 0:
        n -= 1
        k = rng.randint(1, 63)
        s.add(wrap(rng.getrandbits(k) * rng.choice([1, -1])))
    return sorted(s)


def binary(v):
    bits = v & ((1 << 63) - 1)
    o = ''
    for j in range(62, -1, -1):
        o += '1' if bits >> j & 1 else '0'
        if j > 0 and j % 8 == 0:
            o += '·'
    return o


def make(ctx, item):
    kind, vals = item
    h = Hist(kind)
    if kind == 'numbers':
        h.decl('fn sh(v: int) {\n    println(v)\n    print(v)\n    println("")\n    println(v.toString())\n    println(v.toString().length)\n    println(v.toBinary())\n    printHex(v)\n    printHexPadded(v)\n}')
        for v in vals:
            u = v & ((1 << 64) - 1)
            h.op('number', 'sh(%s)' % lit(v), v, v, v, len(str(v)), binary(v), '0x%x' % u, '0x%016x' % u)
    elif kind == 'mod':
        h.decl('fn md(a: int, b: int) = println(a.mod(b))')
        for a, b in vals:
            h.op('mod', 'md(%s, %s)' % (lit(a), lit(b)), wrap(a - wrap(tdiv(a, b) * b)))
    elif kind == 'bool':
        h.op('bool', 'println(true)\nprintln(false)\nprintln(true.toString())\nprintln(false.toString())\nprintln((1 < 2).toString().append("!"))\nprintln(not true)', 'true', 'false', 'true', 'false', 'true!', 'false')
        h.op('text', 'print("a")\nprint("")\nprint(5)\nprintln("b")\nprintln("")\nprintln("%d %s %%")\nprint("%n%s\\n")', 'a5b', '', '%d %s %%', '%n%s')
    else:
        for i, s in enumerate(vals):
            x = 0x811c9dc5
            for c in s:
                x = ((x ^ c) * 0x01000193) & 0xffffffff
            try:
                st = s.decode()
                ok = st.isprintable() and i % 2
            except UnicodeDecodeError:
                ok = False
            if ok:
                h.op('fnv1a', 'println(%s.fnv1a())' % hist.strlit(s), x)
            else:
                h.op('fnv1a', 'b%d := NewByteBuffer(%d)%s\nprintln(fnv1a(b%d.toString()))' % (i, len(s), ''.join('\nb%d.append(%d)' % (i, c) for c in s), i), x)
    return h


def run(chk):
    rng = core.rng_for('C22', chk.seed)
    vs = values(rng, chk.n(1500, 40000))
    items = [('numbers', vs[i:i + 150]) for i in range(0, len(vs), 150)]
    pairs = [(rng.choice(vs), rng.choice(vs)) for _ in range(chk.n(3000, 40000))] + [(a, b) for a in (0, 1, -1, 7, -7, MIN, MAX, 100, -100) for b in (1, -1, 2, -2, 3, -3, 7, 8, -8, 10, MAX, MIN)]
    pairs = [(a, b) for a, b in pairs if b]
    items += [('mod', pairs[i:i + 400]) for i in range(0, len(pairs), 400)]
    items += [('bool', None)]
    ss = [content(rng) for _ in range(chk.n(600, 8000))] + [b'', b'a', b'\0', b'\xff', b'foobar', bytes(range(256)), b'\x80' * 40]
    items += [('fnv', ss[i:i + 30]) for i in range(0, len(ss), 30)]
    hist.explore(chk, make, items, heap=False)
