"""Maps against an ideal dictionary."""
from . import core, hist
from .hist import Hist, strlit

RULE = ('random histories of put/get/contains/remove/orElse/foreach/size on one or two maps, for int, string, bool, struct and enum keys, int, string, struct, '
        'array and map values, and hash functions from perfect over colliding, constant, negative and extreme values; key pools from one key to several hundred (many '
        'resizes); every result is printed and compared with a dictionary model, foreach as an unordered set; heap monitored. One evaluation is one operation')

PRE = '''
struct kp {
    a: int
    tag: string
}
enum ke {
    Ka()
    Kb(n: int)
    Kc(s: string)
}
struct vs {
    n: int
    s: string
}
fn mk(i: int) kp = Kp(i, "k".append(i.toString()))
fn eqInt(a: int, b: int) bool = a == b
fn eqBool(a: bool, b: bool) bool = (a and b) or (not a and not b)
fn eqKp(a: kp, b: kp) bool = a.a == b.a
fn eqKe(a: ke, b: ke) bool {
    match a {
        case Ka():
            match b {
                case Ka(): return true
                case Kb(m): return false
                case Kc(t): return false
            }
        case Kb(n):
            match b {
                case Ka(): return false
                case Kb(m): return n == m
                case Kc(t): return false
            }
        case Kc(s):
            match b {
                case Ka(): return false
                case Kb(m): return false
                case Kc(t): return s.Equals(t)
            }
    }
    return false
}
fn hKe(a: ke) int {
    match a {
        case Ka(): return 3
        case Kb(n): return n * 17
        case Kc(s): return s.fnv1a()
    }
    return 0
}
fn sk(i: int) string = i.toString()
fn sk(s: string) string = s
fn sk(b: bool) string = b ? "yes" : "no"
fn sk(k: kp) string = k.a.toString()
fn sk(k: ke) string {
    match k {
        case Ka(): return "ka"
        case Kb(n): return "kb".append(n.toString())
        case Kc(s): return "kc".append(s)
    }
    return ""
}
fn sv(i: int) string = i.toString()
fn sv(s: string) string = s
fn sv(v: vs) string = v.n.toString().append("/").append(v.s)
fn sv(v: []int) string = v.length.toString().append(":").append(v.length > 0 ? v[v.length - 1].toString() : "")
'''

HASH = {
    'int': ['fn(k: int) int = k', 'fn(k: int) int = 0', 'fn(k: int) int = 0 - k', 'fn(k: int) int = k & 3', 'fn(k: int) int = k * 0x3fffffffffffffff', 'fn(k: int) int = ~k',
            'fn(k: int) int = 0 - 1', 'fn(k: int) int = k << 5', 'fn(k: int) int = k * 0x9e3779b97f4a', 'fn(k: int) int = (k & 1) == 0 ? k : 0 - k - 4000000000000000000'],
    'string': ['fnv1a', 'fn(s: string) int = s.length', 'fn(s: string) int = 0 - s.fnv1a()', 'fn(s: string) int = 7', 'fn(s: string) int = s.length > 0 ? s.byte(0) : 0'],
    'bool': ['fn(b: bool) int = b ? 1 : 0', 'fn(b: bool) int = 0 - 5', 'fn(b: bool) int = b ? 0 - 1 : 1'],
    'kp': ['fn(k: kp) int = k.a', 'fn(k: kp) int = 0 - (k.a * 7)', 'fn(k: kp) int = 1', 'fn(k: kp) int = k.a / 3'],
    'ke': ['hKe', 'fn(k: ke) int = 0 - hKe(k)', 'fn(k: ke) int = 9'],
}
EQ = {'int': 'eqInt', 'string': 'Equals', 'bool': 'eqBool', 'kp': 'eqKp', 'ke': 'eqKe'}


def key(rng, kt, n):
    """(expression, shown text)"""
    i = rng.randrange(n)
    if kt == 'int':
        v = i if i % 3 else (-i if i % 2 else (1 << 62) - 1 - i)
        return ('0 - %d' % -v if v < 0 else '%d' % v), '%d' % v
    if kt == 'string':
        v = ['', 'a', 'é', 'key'][i % 4] + ('%d' % (i // 4) if i >= 4 else '')
        if rng.random() < .4:
            return '"%s".append("%s")' % (v[:1], v[1:]), v
        return '"%s"' % v, v
    if kt == 'bool':
        return [('false', 'no'), ('true', 'yes')][i % 2]
    if kt == 'kp':
        return 'mk(%d)' % i, '%d' % i
    return [('Ka()', 'ka'), ('Kb(%d)' % (i // 3), 'kb%d' % (i // 3)), ('Kc("x%d")' % (i // 3), 'kcx%d' % (i // 3))][i % 3]


def val(rng, vt, c):
    c[0] += 1
    i = c[0]
    if vt == 'int':
        v = rng.choice([i, -i, i * 1000003])
        return ('0 - %d' % -v if v < 0 else '%d' % v), '%d' % v
    if vt == 'string':
        return rng.choice([('"v%d"' % i, 'v%d' % i), ('"v".append("%d")' % i, 'v%d' % i)])
    if vt == 'vs':
        return 'Vs(%d, "s".append("%d"))' % (i, i), '%d/s%d' % (i, i)
    n = rng.randint(1, 4)
    return 'array(%d, %d)' % (n, i), '%d:%d' % (n, i)


def make(ctx, item):
    kind, seed = item
    rng = core.rng_for('C13', kind, seed, ctx['seed'])
    h = Hist(kind)
    h.norm = hist.sort_blocks
    h.decl(PRE)
    nm = rng.choice([1, 1, 2])
    c = [0]
    maps = []
    kts = list(HASH)
    for i in range(nm):
        kt = rng.choices(kts, [4, 4, 1, 2, 2])[0]
        vt = rng.choice(['int', 'string', 'vs', '[]int'])
        n = 2 if kt == 'bool' else rng.choice([1, 3, 8, 20, 40, 100])
        if kind == 'large' and kt != 'bool':
            n = 400
        hf = rng.choice(HASH[kt])
        if hf in ('fn(s: string) int = 7', 'fn(k: int) int = 0', 'fn(k: kp) int = 1', 'fn(k: ke) int = 9') and kind == 'large':
            n = 120
        h.decl('fn po%d(o: option«%s») {\n    match o {\n        case Some(v): println("some ".append(v.sv()))\n        case None(): println("none")\n    }\n}' % (i, vt))
        h.line('m%d := NewHashMap«%s, %s»(%s, %s)' % (i, kt, vt, hf, EQ[kt]))
        maps.append((i, kt, vt, n, {}))
    dflt = {'int': '12345', 'string': '"dflt"', 'vs': 'Vs(0, "d")', '[]int': 'array(1, 5)'}
    ds = {'int': '12345', 'string': 'dflt', 'vs': '0/d', '[]int': '1:5'}
    phase = 'grow'
    nops = 500 if kind == 'large' else rng.choice([30, 80, 150])
    for k in range(nops):
        i, kt, vt, n, d = rng.choice(maps)
        if rng.random() < .03:
            phase = rng.choice(['grow', 'shrink', 'mixed'])
        w = {'grow': [8, 2, 1, 1, 1, .3, 1], 'shrink': [1, 2, 1, 8, 1, .3, 1], 'mixed': [4, 3, 2, 4, 1, .3, 1]}[phase]
        op = rng.choices(range(7), w)[0]
        ke, ks = key(rng, kt, n)
        if op == 0:
            ve, vs = val(rng, vt, c)
            old = d.get(ks)
            d[ks] = vs
            h.op('put', 'po%d(m%d.put(%s, %s))' % (i, i, ke, ve), 'some ' + old if old is not None else 'none')
        elif op == 1:
            h.op('get', 'po%d(m%d.get(%s))' % (i, i, ke), 'some ' + d[ks] if ks in d else 'none')
        elif op == 2:
            h.op('contains', 'println(m%d.contains(%s))' % (i, ke), 'true' if ks in d else 'false')
        elif op == 3:
            old = d.pop(ks, None)
            h.op('remove', 'po%d(m%d.remove(%s))' % (i, i, ke), 'some ' + old if old is not None else 'none')
        elif op == 4:
            h.op('orElse', 'println(m%d.orElse(%s, %s).sv())' % (i, ke, dflt[vt]), d.get(ks, ds[vt]))
        elif op == 5:
            fe(h, i, kt, vt, d)
        else:
            h.op('size', 'println(m%d.size)' % i, len(d))
    for i, kt, vt, n, d in maps:
        h.op('size', 'println(m%d.size)' % i, len(d))
        fe(h, i, kt, vt, d)
        for k in list(d)[:30]:
            pass
    return h


def fe(h, i, kt, vt, d):
    h.op('foreach', 'println("[")\nm%d.foreach(fn(k: %s, v: %s) { println(k.sk().append("=").append(v.sv())) })\nprintln("]")' % (i, kt, vt),
         '[', *[('%s=%s' % kv) for kv in d.items()], ']')


def make_bulk(ctx, item):
    """Whole ranges inserted, looked up and removed in loops: many resizes, for one hash function."""
    hf, n = item
    h = Hist('bulk')
    h.decl(PRE)
    h.decl('''
fn cnt(m: map«int, int», lo: int, hi: int) int {
    c := 0
    for i in lo .. hi {
        if m.orElse(i, 0 - 1) == i * 3 {
            c = c + 1
        }
    }
    return c
}
struct tot {
    n: int
    k: int
    v: int
}
fn each(m: map«int, int») {
    t := Tot(0, 0, 0)
    m.foreach(fn(k: int, v: int) {
        t.n = t.n + 1
        t.k = t.k + k
        t.v = t.v + v
    })
    println(t.n)
    println(t.k)
    println(t.v)
}
fn putAll(m: map«int, int», lo: int, hi: int) int {
    c := 0
    for i in lo .. hi {
        if m.put(i, i * 3).isSome() {
            c = c + 1
        }
    }
    return c
}
fn delAll(m: map«int, int», lo: int, hi: int) int {
    c := 0
    for i in lo .. hi {
        if m.remove(i).isSome() {
            c = c + 1
        }
    }
    return c
}
''')
    def each(lo, hi):
        return [hi - lo, sum(range(lo, hi)), 3 * sum(range(lo, hi))]
    q = n // 3
    h.op('bulk put', 'm := NewHashMap«int, int»(%s, eqInt)\nprintln(m.putAll(0, %d))\nprintln(m.size)' % (hf, n), 0, n)
    h.op('bulk get', 'println(m.cnt(0 - 20, %d))' % (n + 20), n)
    h.op('bulk foreach', 'm.each()', *each(0, n))
    h.op('bulk remove', 'println(m.delAll(0, %d))\nprintln(m.size)\nprintln(m.cnt(0, %d))' % (q, n), q, n - q, n - q)
    h.op('bulk foreach', 'm.each()', *each(q, n))
    h.op('bulk put', 'println(m.putAll(0, %d))\nprintln(m.size)\nprintln(m.cnt(0, %d))' % (n, n), n - q, n, n)
    h.op('bulk remove', 'println(m.delAll(0 - 5, %d))\nprintln(m.size)\nprintln(m.cnt(0, %d))' % (n + 5, n), n, 0, 0)
    h.op('bulk foreach', 'm.each()', 0, 0, 0)
    h.op('bulk put', 'println(m.putAll(%d, %d))\nm.each()' % (q, n), 0, *each(q, n))
    return h


def run(chk):
    n = chk.n(260, 2500)
    ctx = hist.explore(chk, make, [('random', i) for i in range(n)] + [('large', i) for i in range(chk.n(16, 200))])
    hist.explore(chk, make_bulk, [(hf, k) for hf in HASH['int'] for k in chk.n([5, 13, 60], [5, 12, 13, 24, 25, 60, 200])], ctx=ctx)
