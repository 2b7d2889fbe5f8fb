"""Lists, options and results against immutable sequences and optional values."""
from . import core, hist
from .hist import Hist

RULE = ('random histories over pools of lists, options and results with int, string and struct elements: toList, append (which adds at the front), reverse, '
        'remove, find, foreach, map, reduce; map, filter, orElse, isSome, isNone, peek, then; callbacks print every call, so that call order and count are part of the trace; '
        'after each operation its inputs are read again (immutability); heap monitored. One evaluation is one operation')

PRE = '''
struct pt {
    a: int
    s: string
}
fn P(i: int) pt = Pt(i, "p".append(i.toString()))
fn sh(i: int) string = i.toString()
fn sh(s: string) string = s
fn sh(p: pt) string = p.s
fn nf(x: int) int {
    return x
}
fn id(i: int) int = i
fn id(s: string) int = s.length
fn id(p: pt) int = p.a
fn sl«T»(l: list«T», f: fn(T) string) {
    loop := true
    while loop {
        match l {
            case Empty():
                loop = false
            case Element(v, rest):
                print(f(v))
                print(",")
                l = rest
        }
    }
    println(".")
}
fn so«T»(o: option«T», f: fn(T) string) {
    match o {
        case Some(v):
            print("some ")
            println(f(v))
        case None():
            println("none")
    }
}
fn sr«T»(r: result«T, string», f: fn(T) string) {
    match r {
        case Ok(v):
            print("ok ")
            println(f(v))
        case Err(e):
            print("err ")
            println(e)
    }
}
fn tr(tag: string, x: string) {
    print(tag)
    println(x)
}
'''
SHOW = {t: 'fn(x: %s) string = x.sh()' % t for t in ('int', 'string', 'pt')}


def elem(rng, t):
    """(expression, shown text, id)"""
    i = rng.choice([0, 1, 1, 2, 3, 7, rng.randrange(100)])
    if t == 'int':
        i = rng.choice([i, -i])
        return ('(0 - %d)' % -i if i < 0 else '%d' % i), '%d' % i, i
    if t == 'string':
        s = 'abcdefgh'[:i % 5] + rng.choice('xyz')
        return rng.choice(['"%s"' % s, '"".append("%s")' % s]), s, len(s)
    return 'P(%d)' % i, 'p%d' % i, i


def ident(t, s):
    return int(s) if t == 'int' else len(s) if t == 'string' else int(s[1:])


def pred(rng):
    """(Clara condition on id, python)"""
    k = rng.choice([0, 1, 2, 3, 5])
    return rng.choice([('> %d' % k, lambda v: v > k), ('== %d' % k, lambda v: v == k), ('< %d' % k, lambda v: v < k), ('>= 0 - 1000', lambda v: v >= -1000), ('> 1000', lambda v: v > 1000)])


def conv(rng, t):
    """A mapping callback: (target type, Clara expr of x, python on shown text)"""
    tt = rng.choice(['int', 'string', 'pt'])
    k = rng.randint(1, 9)
    if tt == 'int':
        return tt, '(x.id() * 2) + %d' % k, lambda s: '%d' % (ident(t, s) * 2 + k)
    if tt == 'string':
        return tt, 'x.sh().append("%d")' % k, lambda s: s + '%d' % k
    return tt, 'P(x.id() + %d)' % k, lambda s: 'p%d' % (ident(t, s) + k)


def make(ctx, item):
    rng = core.rng_for('C14', item, ctx['seed'])
    h = Hist('random')
    h.decl(PRE)
    L, O, R = [], [], []
    cnt = [0]

    def nm(p):
        cnt[0] += 1
        return '%s%d' % (p, cnt[0])

    def sl(n, t):
        return 'sl(%s, %s)' % (n, SHOW[t])

    def ll(v):
        return ''.join(x + ',' for x in v) + '.'

    def add(pool, x, cap=8):
        pool.append(x)
        if len(pool) > cap:
            pool.pop(rng.randrange(len(pool)))

    def new_list():
        t = rng.choice(['int', 'string', 'pt'])
        n = rng.choice([0, 1, 2, 3, 5, 9, 20])
        es = [elem(rng, t) for _ in range(n)]
        name = nm('l')
        if n and rng.random() < .6:
            st = '%s := [%s].toList()' % (name, ', '.join(e[0] for e in es))
            v = [e[1] for e in es]
        else:
            st = '%s := Empty«%s»()' % (name, t)
            for e in es:
                st += '\n%s = %s.append(%s)' % (name, name, e[0])
            v = [e[1] for e in es][::-1]
        h.op('new list', st + '\n' + sl(name, t), ll(v))
        add(L, (name, t, v))

    def new_opt():
        t = rng.choice(['int', 'string', 'pt'])
        name = nm('o')
        if rng.random() < .35:
            h.op('None', '%s := None«%s»()\nso(%s, %s)' % (name, t, name, SHOW[t]), 'none')
            add(O, (name, t, None))
        else:
            e = elem(rng, t)
            h.op('Some', '%s := Some(%s)\nso(%s, %s)' % (name, e[0], name, SHOW[t]), 'some ' + e[1])
            add(O, (name, t, e[1]))

    def new_res():
        t = rng.choice(['int', 'string', 'pt'])
        name = nm('r')
        if rng.random() < .4:
            m = rng.choice(['bad', 'worse', ''])
            h.op('Err', '%s := Err«%s, string»("%s")\nsr(%s, %s)' % (name, t, m, name, SHOW[t]), 'err ' + m)
            add(R, (name, t, False, m))
        else:
            e = elem(rng, t)
            h.op('Ok', '%s := Ok«%s, string»(%s)\nsr(%s, %s)' % (name, t, e[0], name, SHOW[t]), 'ok ' + e[1])
            add(R, (name, t, True, e[1]))

    def so(n, t):
        return 'so(%s, %s)' % (n, SHOW[t])

    def ss(v):
        return 'none' if v is None else 'some ' + v

    for _ in range(2):
        new_list(); new_opt(); new_res()
    for _ in range(45):
        c = rng.randrange(24)
        n, t, v = rng.choice(L)
        if c == 0:
            new_list()
        elif c == 1:
            new_opt()
        elif c == 2:
            new_res()
        elif c == 3:
            e = elem(rng, t)
            m = nm('l')
            h.op('append', '%s := %s.append(%s)\n%s\n%s' % (m, n, e[0], sl(m, t), sl(n, t)), ll([e[1]] + v), ll(v))
            add(L, (m, t, [e[1]] + v))
        elif c == 4:
            m = nm('l')
            h.op('reverse', '%s := %s.reverse()\n%s\n%s' % (m, n, sl(m, t), sl(n, t)), ll(v[::-1]), ll(v))
            add(L, (m, t, v[::-1]))
        elif c in (5, 6):
            ps, pf = pred(rng)
            m = nm('p')
            w, got, done = [], None, False
            for x in v:
                if not done and pf(ident(t, x)):
                    got, done = x, True
                else:
                    w.append(x)
            lm = nm('l')
            h.op('remove', '%s := %s.remove(fn(x: %s) bool = x.id() %s)\n%s := %s.first\n%s\n%s\n%s' % (m, n, t, ps, lm, m, sl(lm, t), so(m + '.second', t), sl(n, t)),
                 ll(w), ss(got), ll(v))
            add(L, (lm, t, w))
        elif c in (7, 8):
            ps, pf = pred(rng)
            ev, got = [], None
            for x in v:
                ev.append('f' + x)
                if pf(ident(t, x)):
                    got = x
                    break
            m = nm('o')
            h.op('find', '%s := %s.find(fn(x: %s) bool {\n    tr("f", x.sh())\n    return x.id() %s\n})\n%s\n%s' % (m, n, t, ps, so(m, t), sl(n, t)), *ev + [ss(got), ll(v)])
            add(O, (m, t, got))
        elif c == 9:
            h.op('foreach', '%s.foreach(fn(x: %s) { tr("e", x.sh()) })\n%s' % (n, t, sl(n, t)), *['e' + x for x in v] + [ll(v)])
        elif c in (10, 11):
            tt, ex, pf = conv(rng, t)
            m = nm('l')
            h.op('map', '%s := %s.map(fn(x: %s) %s {\n    tr("m", x.sh())\n    return %s\n})\n%s\n%s' % (m, n, t, tt, ex, sl(m, tt), sl(n, t)),
                 *['m' + x for x in v] + [ll([pf(x) for x in v]), ll(v)])
            add(L, (m, tt, [pf(x) for x in v]))
        elif c == 12:
            if t == 'int':
                acc, f, g = '(0 - 1)', '(a * 3) - x', lambda a, x: str(int(a) * 3 - int(x))
                a0 = '-1'
            elif t == 'string':
                acc, f, g, a0 = '"z"', 'a.append(x)', lambda a, x: a + x, 'z'
            else:
                acc, f, g, a0 = 'P(4)', 'P((a.a * 2) - x.a)', lambda a, x: 'p%d' % (int(a[1:]) * 2 - int(x[1:])), 'p4'
            r = a0
            ev = []
            for x in v:
                ev.append('r' + x)
                r = g(r, x)
            h.op('reduce', 'println(%s.reduce(%s, fn(a: %s, x: %s) %s {\n    tr("r", x.sh())\n    return %s\n}).sh())\n%s' % (n, acc, t, t, t, f, sl(n, t)), *ev + [r, ll(v)])
        elif c == 13:   # chain
            ps, pf = pred(rng)
            tt, ex, cf = conv(rng, t)
            w = [cf(x) for x in v[::-1]]
            got = next((x for x in w if pf(ident(tt, x))), None)
            h.op('chain', 'so(%s.reverse().map(fn(x: %s) %s = %s).find(fn(x: %s) bool = x.id() %s), %s)' % (n, t, tt, ex, tt, ps, SHOW[tt]), ss(got))
        elif c < 19:
            n, t, v = rng.choice(O)
            if c == 14:
                tt, ex, cf = conv(rng, t)
                m = nm('o')
                h.op('option map', '%s := %s.map(fn(x: %s) %s {\n    tr("m", x.sh())\n    return %s\n})\n%s\n%s' % (m, n, t, tt, ex, so(m, tt), so(n, t)),
                     *(['m' + v] if v is not None else []) + [ss(None if v is None else cf(v)), ss(v)])
                add(O, (m, tt, None if v is None else cf(v)))
            elif c == 15:
                ps, pf = pred(rng)
                m = nm('o')
                w = v if v is not None and pf(ident(t, v)) else None
                h.op('option filter', '%s := %s.filter(fn(x: %s) bool {\n    tr("f", x.sh())\n    return x.id() %s\n})\n%s\n%s' % (m, n, t, ps, so(m, t), so(n, t)),
                     *(['f' + v] if v is not None else []) + [ss(w), ss(v)])
                add(O, (m, t, w))
            elif c == 16:
                e = elem(rng, t)
                h.op('option orElse', 'println(%s.orElse(%s).sh())\n%s' % (n, e[0], so(n, t)), e[1] if v is None else v, ss(v))
            elif c == 17:
                h.op('option isSome', 'println(%s.isSome())\nprintln(%s.isNone())' % (n, n), 'false' if v is None else 'true', 'true' if v is None else 'false')
            else:
                m = nm('o')
                h.op('option peek', '%s := %s.peek(fn(x: %s) { tr("p", x.sh()) })\n%s' % (m, n, t, so(m, t)), *(['p' + v] if v is not None else []) + [ss(v)])
        else:
            n, t, ok, v = rng.choice(R)

            def sr(n, t):
                return 'sr(%s, %s)' % (n, SHOW[t])

            def rr(ok, v):
                return ('ok ' if ok else 'err ') + v
            tt, ex, cf = conv(rng, t)
            m = nm('r')
            if c in (19, 20):
                h.op('result map', '%s := %s.map(fn(x: %s) %s {\n    tr("m", x.sh())\n    return %s\n})\n%s\n%s' % (m, n, t, tt, ex, sr(m, tt), sr(n, t)),
                     *(['m' + v] if ok else []) + [rr(ok, cf(v) if ok else v), rr(ok, v)])
                add(R, (m, tt, ok, cf(v) if ok else v))
            elif c in (21, 22):
                ps, pf = pred(rng)
                h.op('result then', '%s := %s.then(fn(x: %s) result«%s, string» {\n    tr("t", x.sh())\n    return x.id() %s ? Ok«%s, string»(%s) : Err«%s, string»("E".append(x.sh()))\n})\n%s\n%s'
                     % (m, n, t, tt, ps, tt, ex, tt, sr(m, tt), sr(n, t)),
                     *(['t' + v] if ok else []) + [rr(ok and pf(ident(t, v)), (cf(v) if pf(ident(t, v)) else 'E' + v) if ok else v), rr(ok, v)])
                if ok:
                    add(R, (m, tt, pf(ident(t, v)), cf(v) if pf(ident(t, v)) else 'E' + v))
            else:
                ps, pf = pred(rng)
                h.op('result peek', '%s := %s.peek(fn(x: %s) option«string» {\n    tr("k", x.sh())\n    return x.id() %s ? Some("F".append(x.sh())) : None«string»()\n})\n%s\n%s' % (m, n, t, ps, sr(m, t), sr(n, t)),
                     *(['k' + v] if ok else []) + [rr(ok and not pf(ident(t, v)), ('F' + v if pf(ident(t, v)) else v) if ok else v), rr(ok, v)])
    for n, t, v in L:
        h.op('reread', sl(n, t), ll(v))
    return h


def run(chk):
    hist.explore(chk, make, range(chk.n(400, 4000)))
