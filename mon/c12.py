"""Strings, bytes and byte buffers against plain byte sequences."""
from . import core, hist
from .hist import Hist, strlit

RULE = ('random histories of string, bytes and byte buffer operations on shared pools of values with arbitrary contents (all byte values, NUL, empty, '
        'multi-byte characters, up to several thousand bytes); every result is read back byte by byte and, where it has no NUL, through C printf, all values are '
        'read again at the end (immutability, no sharing); contract panics are checked in separate programs; the heap monitor watches every access. '
        'One evaluation is one operation of a history')

PRE = '''
fn ds(s: string) {
    print(s.length)
    for i in 0 .. s.length {
        print(" ")
        print(s.byte(i))
    }
    println("")
}
fn db(b: bytes) {
    print(b.length())
    for i in 0 .. b.length() {
        print(" ")
        print(b.get(i))
    }
    println("")
}
fn cs(s: string) = println(s)
fn bb(b: bool) = println(b ? "T" : "F")
fn fill(b: bytes, from: int, step: int) bytes {
    for i in 0 .. b.length() {
        b.set(i, (from + (i * step)) & 255)
    }
    return b
}
fn many(b: byteBuffer, s: string, n: int) byteBuffer {
    for i in 0 .. n {
        b.append(s)
    }
    return b
}
fn manyb(b: byteBuffer, v: int, n: int) byteBuffer {
    for i in 0 .. n {
        b.append((v + i) & 255)
    }
    return b
}
'''


def dump(b):
    return (' '.join(['%d' % len(b)] + ['%d' % (x - 256 if x > 127 else x) for x in b])).encode()


def content(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 40, 100]) if n is None else n
    k = rng.random()
    if k < .3:
        return bytes(rng.choice(b'ab') for _ in range(n))
    if k < .5:
        return bytes(rng.randrange(32, 127) for _ in range(n))
    if k < .6:
        return ''.join(rng.choice('aé·€𝄞zß') for _ in range(n)).encode()
    return bytes(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n))


def make(ctx, item):
    kind, seed = item
    rng = core.rng_for('C12', kind, seed, ctx['seed'])
    h = Hist(kind)
    h.decl(PRE)
    S, B, F = [], [], []   # (name, value)
    cnt = [0]

    def nm(p):
        cnt[0] += 1
        return '%s%d' % (p, cnt[0])

    def show(n, v):
        ev = [dump(v)]
        st = 'ds(%s)' % n
        if 0 not in v and b'\n' not in v and rng.random() < .5:
            st += '\ncs(%s)' % n
            ev.append(bytes(v))
        return st, ev

    def new_str():
        v = content(rng)
        n = nm('s')
        try:
            lit = v.decode('utf-8').isprintable() or not v
        except UnicodeDecodeError:
            lit = False
        if lit and rng.random() < .7:
            st = '%s := %s' % (n, strlit(v))
        elif rng.random() < .5:
            b = nm('t')
            st = '%s := NewByteBuffer(%d)' % (b, rng.choice([0, 1, 2, len(v), 16]))
            for x in v:
                st += '\n%s.append(%d)' % (b, x) if x < 128 or rng.random() < .5 else '\n%s.append(0 - %d)' % (b, 256 - x)
            st += '\n%s := %s.toString()' % (n, b)
        else:
            b = nm('t')
            st = '%s := Bytes(%d)' % (b, len(v))
            for i in rng.sample(range(len(v)), len(v)):
                if v[i]:
                    st += '\n%s.set(%d, %d)' % (b, i, v[i])
            st += '\n%s := %s.toString()' % (n, b)
        s2, ev = show(n, v)
        h.op('new string', st + '\n' + s2, *ev)
        S.append((n, v))

    def res_str(kind, expr, v):
        n = nm('s')
        s2, ev = show(n, v)
        h.op(kind, '%s := %s\n%s' % (n, expr, s2), *ev)
        if len(v) < 1200:
            S.append((n, v))
            if len(S) > 14:
                S.pop(rng.randrange(len(S)))

    def new_bytes():
        n = nm('b')
        k = rng.choice([0, 1, 2, 7, 8, 9, 33, 64])
        f, s = rng.randrange(256), rng.randrange(256)
        h.op('new bytes', '%s := Bytes(%d)\ndb(%s)\n%s.fill(%d, %d)\ndb(%s)' % (n, k, n, n, f, s, n), dump(bytes(k)), dump(bytes((f + i * s) & 255 for i in range(k))))
        B.append((n, bytearray((f + i * s) & 255 for i in range(k))))

    def new_buf():
        n = nm('f')
        h.op('new buffer', '%s := NewByteBuffer(%d)\nprintln(size(%s))' % (n, rng.choice([0, 0, 1, 2, 3, 8, 16, 100]), n), '0')
        F.append((n, bytearray()))

    for _ in range(3):
        new_str()
    new_bytes(); new_buf()
    nops = 60 if kind == 'mixed' else 25
    for _ in range(nops):
        c = rng.randrange(22)
        sn, sv = rng.choice(S)
        if c == 0:
            new_str()
        elif c == 1:
            new_bytes()
            if len(B) > 6:
                B.pop(0)
        elif c == 2:
            new_buf()
            if len(F) > 5:
                F.pop(0)
        elif c == 3:
            h.op('length', 'println(%s.length)' % sn, len(sv))
        elif c == 4 and sv:
            i = rng.choice([0, len(sv) - 1, rng.randrange(len(sv))])
            h.op('byte', 'println(%s.byte(%d))' % (sn, i), sv[i] - 256 if sv[i] > 127 else sv[i])
        elif c in (5, 6):
            tn, tv = rng.choice(S)
            if rng.random() < .5:   # same contents, different object; or differing in one byte
                x = bytearray(sv)
                if x and rng.random() < .6:
                    j = rng.choice([0, len(x) - 1, rng.randrange(len(x))])
                    x[j] ^= rng.choice([1, 128, 255])
                elif rng.random() < .3:
                    x += b'\0'
                tn, tv = nm('s'), bytes(x)
                t = nm('t')
                st = '%s := NewByteBuffer(%d)' % (t, rng.choice([1, len(x) + 1]))
                for y in x:
                    st += '\n%s.append(%d)' % (t, y)
                h.line(st + '\n%s := %s.toString()' % (tn, t))
            h.op('Equals', 'bb(%s.Equals(%s))\nbb(Equals(%s, %s))' % (sn, tn, tn, sn), *(['T' if sv == tv else 'F'] * 2))
        elif c in (7, 8):
            a = rng.randint(0, len(sv)); b = rng.randint(a, len(sv))
            if rng.random() < .3:
                a, b = rng.choice([(0, len(sv)), (0, 0), (len(sv), len(sv)), (max(0, len(sv) - 1), len(sv))])
            res_str('Substring', '%s.Substring(%d, %d)' % (sn, a, b), sv[a:b])
        elif c in (9, 10, 11):
            if rng.random() < .7 and sv:
                a = rng.randrange(len(sv)); b = rng.randint(a + 1, min(len(sv), a + 6))
                sub = sv[a:b]
                if rng.random() < .3:
                    sub = sub[:-1] + bytes([sub[-1] ^ 1])
                st = '%s.Substring(%d, %d)' % (sn, a, b) if sub == sv[a:b] else None
            else:
                tn, tv = rng.choice(S)
                sub, st = tv, tn
            if st is None:
                t = nm('t')
                h.line('%s := NewByteBuffer(4)' % t + ''.join('\n%s.append(%d)' % (t, y) for y in sub))
                st = t + '.toString()'
            if rng.random() < .5:
                h.op('IndexOf', 'println(%s.IndexOf(%s))' % (sn, st), sv.find(sub) if sub else 0)
            else:
                fr = rng.choice([0, 1, len(sv), len(sv) + 1, rng.randint(0, len(sv)), max(0, len(sv) - len(sub))])
                if sub:
                    h.op('IndexOf from', 'println(%s.IndexOf(%s, %d))' % (sn, st, fr), sv.find(sub, fr))
        elif c in (12, 13):
            tn, tv = rng.choice(S)
            res_str('append', '%s.append(%s)' % (sn, tn), sv + tv)
        elif c == 14:
            bn, bv = rng.choice(B)
            if bv:
                i = rng.choice([0, len(bv) - 1, rng.randrange(len(bv))])
                v = rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
                e = str(v)
                if v > 127 and rng.random() < .5:
                    e = '0 - %d' % (256 - v)
                bv[i] = v
                h.op('set', '%s.set(%d, %s)\nprintln(%s.get(%d))\ndb(%s)' % (bn, i, e, bn, i, bn), v - 256 if v > 127 else v, dump(bv))
        elif c == 15:
            bn, bv = rng.choice(B)
            k = rng.randrange(3)
            if k == 0:
                res_str('bytes toString', '%s.toString()' % bn, bytes(bv))
            elif k == 1:
                n = rng.randint(0, len(bv))
                res_str('bytes toString', '%s.toString(%d)' % (bn, n), bytes(bv[:n]))
            else:
                a = rng.randint(0, len(bv)); n = rng.randint(0, len(bv) - a)
                res_str('bytes toString', '%s.toString(%d, %d)' % (bn, a, n), bytes(bv[a:a + n]))
        elif c == 16:
            (an, av), (bn, bv) = rng.choice(B), rng.choice(B)
            if an != bn:
                i, j = rng.randint(0, len(av)), rng.randint(0, len(bv))
                n = min(len(av) - i, len(bv) - j)
                bv[j:j + n] = av[i:i + n]
                h.op('copyArray', 'copyArray(%s, %d, %s, %d)\ndb(%s)\ndb(%s)' % (an, i, bn, j, an, bn), dump(av), dump(bv))
        elif c == 17:
            bn, bv = rng.choice(B)
            i, j = rng.randint(0, len(sv)), rng.randint(0, len(bv))
            n = min(len(sv) - i, len(bv) - j)
            bv[j:j + n] = sv[i:i + n]
            h.op('copyString', 'copyString(%s, %d, %s, %d)\ndb(%s)' % (sn, i, bn, j, bn), dump(bv))
        else:
            fn, fv = rng.choice(F)
            k = rng.randrange(8)
            if k == 0:
                fv += sv
                h.op('buffer append', '%s.append(%s)\nprintln(size(%s))' % (fn, sn, fn), len(fv))
            elif k == 1:
                v = rng.randrange(256)
                fv.append(v)
                h.op('buffer append byte', '%s.append(%d)\nprintln(size(%s))' % (fn, v, fn), len(fv))
            elif k == 2:
                tn, tv = rng.choice(S)
                fv += sv + tv
                h.op('buffer append chain', 'println(size(%s.append(%s).append(%s)))' % (fn, sn, tn), len(fv))
            elif k == 3:
                n = rng.choice([1, 3, 20])
                fv += sv * n
                h.op('buffer grow', 'println(size(%s.many(%s, %d)))' % (fn, sn, n), len(fv))
            elif k == 4:
                n, v = rng.choice([1, 40, 300]), rng.randrange(256)
                fv += bytes((v + i) & 255 for i in range(n))
                h.op('buffer grow bytes', 'println(size(%s.manyb(%d, %d)))' % (fn, v, n), len(fv))
            elif k == 5 and rng.random() < .5:
                fv.clear()
                h.op('reset', '%s.reset()\nprintln(size(%s))\nds(%s.toString())' % (fn, fn, fn), 0, '0')
            elif k in (5, 6):
                a = rng.randint(0, len(fv)); n = rng.randint(0, len(fv) - a)
                if rng.random() < .3:
                    n = len(fv) - a
                res_str('buffer substring', '%s.substring(%d, %d)' % (fn, a, n), bytes(fv[a:a + n]))
            else:
                res_str('buffer toString', '%s.toString()' % fn, bytes(fv))
    for n, v in S:
        h.op('reread', 'ds(%s)' % n, dump(v))
    for n, v in B:
        h.op('reread', 'db(%s)' % n, dump(v))
    for n, v in F:
        h.op('reread', 'ds(%s.toString())' % n, dump(v))
    return h


BAR = b'// -----------------------------------------------------------------------------'


def panic(msg):
    return [b'', BAR, b'// Panic: ' + msg.encode(), BAR]


CONTRACT = [
    ('buf.substring(-1, 1)', 'pos or length cannot be negative'), ('buf.substring(0, -1)', 'pos or length cannot be negative'),
    ('buf.substring(1, 3)', 'pos+length > buf.size'), ('buf.substring(4, 0)', 'pos+length > buf.size'), ('buf.substring(0, 16)', 'pos+length > buf.size'),
    ('Bytes(-1)', 'length is out of range'), ('b.toString(-1)', 'length is out of range'), ('b.toString(1, -1)', 'length is out of range'), ('NewByteBuffer(-5)', 'length is out of range'),
    ('s.Substring(2, 1)', 'length is out of range'), ('s.Substring(-1, 2)', 'idx is out of range'), ('b.toString(-2, 4)', 'idx is out of range'),
]


def make_contract(ctx, item):
    expr, msg = CONTRACT[item]
    h = Hist('contract')
    h.decl(PRE)
    h.rc = 1
    h.op('contract ' + expr, 's := "abc"\nb := Bytes(3).fill(1, 1)\nbuf := NewByteBuffer(16)\nbuf.append(s)\nprintln("before")\nx := %s\nprintln("after")' % expr, 'before', *panic(msg))
    return h


def make_big(ctx, item):
    """Growth to large sizes."""
    n = item
    h = Hist('big')
    h.decl(PRE + '''
fn sum(s: string) int {
    h := 7
    for i in 0 .. s.length {
        h = ((h * 31) + (s.byte(i) & 255)) & 0xffffff
    }
    return h
}
''')

    def sm(v):
        x = 7
        for c in v:
            x = (x * 31 + c) & 0xffffff
        return x
    v = bytes((3 + i) & 255 for i in range(n))
    h.op('big buffer', 'f := NewByteBuffer(0)\nf.manyb(3, %d)\ns := f.toString()\nprintln(s.length)\nprintln(s.sum())' % n, n, sm(v))
    h.op('big append', 't := s.append("!").append(s)\nprintln(t.length)\nprintln(t.sum())', 2 * n + 1, sm(v + b'!' + v))
    h.op('big Substring', 'u := t.Substring(%d, %d)\nprintln(u.length)\nprintln(u.sum())' % (n - 1, 2 * n), n + 1, sm((v + b'!' + v)[n - 1:2 * n]))
    # the only "!" which is followed by the first byte of s is the one in the middle, unless s contains the pair
    sub = b'!' + v[:1]
    h.op('big IndexOf', 'println(t.IndexOf("!".append(s.Substring(0, 1))))\nbb(t.Equals(s.append("!").append(s)))\nbb(t.Equals(s.append("!").append(s.Substring(0, %d)).append("x")))' % (n - 1), (v + b'!' + v).find(sub), 'T', 'F' if v[-1:] != b'x' else 'T')
    h.op('big buffer append', 'g := NewByteBuffer(1)\ng.append(t).append(t)\nprintln(size(g))\nprintln(g.toString().sum())', 2 * (2 * n + 1), sm((v + b'!' + v) * 2))
    return h


def run(chk):
    n = chk.n(260, 2500)
    ctx = hist.explore(chk, make, [(k, i) for i in range(n) for k in ('mixed', 'short')])
    hist.explore(chk, make_contract, range(len(CONTRACT)), ctx=ctx)
    hist.explore(chk, make_big, chk.n([1, 255, 1000, 30000], [1, 2, 255, 256, 1000, 4097, 30000, 300000]), ctx=ctx)
