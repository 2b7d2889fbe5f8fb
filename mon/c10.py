"""Arbitrary and malformed sources: the compiler must end with a verdict, and must reject what does not parse."""
import os, shutil
from . import core, gen, syntax

RULE = ('sources derived from generated programs, the examples, the tests and the library by random byte, token and line mutations (deletions, insertions, duplications, swaps, replacements from a '
        'vocabulary, truncations at every kind of boundary, splices of two sources, removed or added brackets, quotes and commas), plus random bytes, random tokens and deep nesting. An independent tokenizer and '
        'recogniser decides whether a source is well formed. One evaluation is one compilation: no crash, no hang, status 0 with an executable or status 1 with errors and no executable; status 1 if not well formed. '
        'Distinct: sources; coverage counts verdicts by kind of mutation')

VOCAB = ['fn', 'return', 'if', 'elseif', 'else', 'true', 'false', 'not', 'and', 'or', 'struct', 'while', 'for', 'in', 'enum', 'match', 'case', 'type', '{', '}', '(', ')', '[', ']', '«', '»', '#', '?', ',', ':', ':=',
         '+', '-', '*', '~', '^', '|', '&', '>', '>>', '>=', '<', '<<', '<=', '.', '..', '=', '==', '/', '"a"', '""', '0', '1', '0x1F', '4611686018427387903', '4611686018427387904', '99999999999999999999', 'int', 'string', 'bool', 'bytes',
         'nothing', 'pointer', 'main', 'println', 'printf', 'debug', 'length', 'array', 'option', 'list', 'map', 'Some', 'None', 'Ok', 'Err', 'T', 'unsafe', 'entrypoint', 'invokeDynamic', 'claralloc', 'gc', 'frame', 'asEnum', 'enum_', 'append', 'toString',
         'RawValues', 'ExtRet', 'panic', 'exit', 'x', 'a', 'f', '[]', 'fn()', 'Empty', 'Element', 'result', 'file', 'getRuntime', '_', 'é', 'typeInfoTable', 'setElement', 'arrayNoInit', 'initWith']
STRAY = ['$', '@', '`', ';', "'", '!', '%', '\\', '\t', '\x00', '\x7f', '\u00a0', '\u20ac', '\ufeff', '\u2028', '\udcff', '\udc80']

SINK = '''// Everything
#[RawValues]
fn abs(i: int) int
struct pt«A» {
    x: A
    y: []int
    f: fn(int, A) string
    g: fn() nothing
}
enum sh«T» {
    Ci(r: T)
    Re(w: int, h: []sh«T»)
    No()
}
fn area«T»(s: sh«T», k: fn(T) int) int {
    match s {
        case Ci(r):
            return k(r)
        case Re(w, h):
            t := 0
            for e in h {
                t = t + (w * e.area(k))
            }
            return t
        case No(): return 0
    }
}
fn id«T»(a: T) T = a
fn mk(i: int) fn(int) int = fn(a: int) int = a + i
fn cnt() fn() int {
    n := 0
    return fn() int {
        n = n + 1
        return n
    }
}
fn main() {
    a := [1, 2, 3]
    a[0] = (a[1] << 2) | 0x0f & ~a[2] ^ 1
    s := Re(2, [Ci(1), No«int»()])
    println(s.area(fn(x: int) int = x * 2))
    p := Pt("a", a, fn(i: int, q: string) string = q, fn() { println("g") })
    p.y[1] = p.y.length - 1
    p.g()
    i := 0
    while i < 3 and not (i == 7) {
        if i == 0 {
            println("zero")
        } elseif i >= 1 or false {
            println(i > 1 ? "big" : "one")
        } else {
            println(-i)
        }
        i = i + 1
    }
    for j in 3 .. 0 {
        println(mk(j)(10))
    }
    if true {
        b := [4, 5]
    }
    while false {
        a[0] = a[1]
    }
    c := cnt()
    c()
    println(c())
    println(id«string»("x").append("y\\n\\"z"))
    println(array(3, Some(4)).length)
    return
}
'''


def corpus(chk):
    out = [('sink', SINK)]
    for d in ('install/examples', 'tests', 'tests/panic', 'install/lib'):
        p = os.path.join(core.REPO, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith('.clara'):
                    out.append((d + '/' + f, syntax.decode(open(os.path.join(p, f), 'rb').read())))
    return out


def render(toks, src, rng):
    return src


def pieces(src):
    """Splits a well-formed source into tokens and the text between them."""
    toks = syntax.lex(src)
    out, p = [], 0
    for t in toks:
        if t.i > p:
            out.append(('ws', src[p:t.i]))
        if t.j > t.i:
            out.append((t.k, src[t.i:t.j]))
        p = t.j
    return out


def join(ps):
    """Joins pieces, with a space where two tokens would run together."""
    out = []
    last = 'ws'
    for k, v in ps:
        if k != 'ws' and last != 'ws':
            out.append(' ')
        out.append(v)
        last = k
    return ''.join(out)


def mutate(rng, base, others):
    """A mutated source: (kind, text)."""
    r = rng.random()
    if r < .18:     # bytes
        b = bytearray(base.encode('utf-8', 'surrogateescape'))
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            p = rng.randrange(len(b) + 1)
            o = rng.randrange(5)
            if o == 0 and p < len(b):
                b[p] = rng.randrange(256)
            elif o == 1 and p < len(b):
                del b[p:p + rng.choice([1, 1, 2, 7])]
            elif o == 2:
                b[p:p] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 1, 3])))
            elif o == 3:
                b[p:p] = b[p:p + rng.randrange(1, 60)]
            elif p < len(b):
                b[p] ^= 1 << rng.randrange(8)
        return 'bytes', syntax.decode(bytes(b))
    if r < .24:     # truncation
        if rng.random() < .5:
            b = base.encode('utf-8', 'surrogateescape')
            return 'truncated bytes', syntax.decode(b[:rng.randrange(len(b))])
        ps = pieces(base)
        return 'truncated', join(ps[:rng.randrange(len(ps))])
    if r < .30:     # stray characters
        p = rng.randrange(len(base) + 1)
        return 'stray', base[:p] + rng.choice(STRAY) + base[p:]
    if r < .36:     # lines
        ls = base.split('\n')
        o = rng.randrange(4)
        i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
        if o == 0:
            del ls[i]
        elif o == 1:
            ls[i], ls[j] = ls[j], ls[i]
        elif o == 2:
            ls.insert(i, ls[j])
        else:
            ls.insert(i, rng.choice(rng.choice(others).split('\n')))
        return 'lines', '\n'.join(ls)
    if r < .40:     # splice
        o = rng.choice(others)
        p1, p2 = pieces(base), pieces(o)
        return 'splice', join(p1[:rng.randrange(len(p1))] + p2[rng.randrange(len(p2)):])
    ps = pieces(base)
    idx = [i for i, (k, v) in enumerate(ps) if k != 'ws']
    kind = rng.choice(['delete', 'insert', 'replace', 'swap', 'bracket', 'comma', 'dup', 'rename', 'rename', 'literal', 'quote', 'delete2'])
    for _ in range(rng.choice([1, 1, 1, 2]) if kind != 'quote' else 1):
        i = rng.choice(idx)
        if kind == 'delete':
            ps[i] = ('ws', ' ')
        elif kind == 'delete2':
            for q in range(i, min(len(ps), i + rng.randrange(2, 8))):
                ps[q] = ('ws', ' ')
        elif kind == 'insert':
            ps[i] = ('op', rng.choice(VOCAB) + ' ' + ps[i][1])
        elif kind == 'replace':
            ps[i] = ('op', rng.choice(VOCAB))
        elif kind == 'swap':
            j = rng.choice(idx)
            ps[i], ps[j] = ps[j], ps[i]
        elif kind == 'dup':
            j = min(len(ps), i + rng.randrange(1, 12))
            ps[i:i] = ps[i:j]
        elif kind == 'bracket':
            br = [q for q in idx if ps[q][1] in ('(', ')', '{', '}', '[', ']', '«', '»') and q < len(ps)]
            if br:
                q = rng.choice(br)
                ps[q] = rng.choice([('ws', ' '), ('op', ps[q][1] + ps[q][1]), ('op', rng.choice('(){}[]«»'))])
        elif kind == 'comma':
            br = [q for q in idx if ps[q][1] in (',', ':', '.', '=', ':=', '(', ')')]
            if br:
                q = rng.choice(br)
                ps[q] = rng.choice([('op', ps[q][1] + ' ,'), ('op', ', ' + ps[q][1]), ('ws', ' '), ('op', ps[q][1] + ' ' + ps[q][1])])
        elif kind == 'rename':
            ids = [q for q in idx if ps[q][0] == 'id' and q < len(ps)]
            if ids:
                q = rng.choice(ids)
                w = ps[rng.choice(ids)][1] if rng.random() < .75 else rng.choice(VOCAB)
                if rng.random() < .25:
                    w = w[:1].swapcase() + w[1:]
                # a name after struct, enum or fn is changed more often: clashes of declarations
                ds = [x for x in ids if x >= 2 and ps[x - 2][1] in ('struct', 'enum', 'fn')]
                if ds and rng.random() < .4:
                    q = rng.choice(ds)
                    if rng.random() < .3:
                        w = ps[rng.choice(ds)][1]
                        w = w[:1].swapcase() + w[1:]
                ps[q] = ('id', w)
        elif kind == 'literal':
            ls = [q for q in idx if ps[q][0] in ('int', 'str') or ps[q][1] in ('true', 'false')]
            if ls:
                q = rng.choice(ls)
                ps[q] = ('int', rng.choice(['1', '"s"', 'true', '[1]', '[]', '[[]]', 'fn() int = 1', 'fn() {}', 'type(int)', 'main', '4611686018427387904', '-4611686018427387905', '0x', '08', '09a', '1a', '0xg', '1.5', '"\\t"', 'Some(1)', 'None«int»()', 'x']))
        elif kind == 'quote':
            p = rng.randrange(len(base) + 1)
            return 'quote', base[:p] + '"' + base[p:]
        idx = [i for i, (k, v) in enumerate(ps) if k != 'ws']
        if not idx:
            break
    return kind, join(ps)


INSERTS = [',', ')', ']', '}', '»', '(', '[', '{', '«', ':', '=', ':=', '.', '?', 'fn', 'x', '1', '"s"', 'return', 'case', 'else', '-', '+', 'not', '#', '..', 'in', 'if', 'and', '==']


def edits(ps):
    """All single token edits of a source: (kind, position, text), the most telling ones first."""
    idx = [i for i, (k, _) in enumerate(ps) if k != 'ws']
    out = [('del', i, '') for i in idx] + [('dup', i, '') for i in idx] + [('ins', i, ',') for i in idx]
    rest = [('ins', i, t) for i in idx for t in INSERTS[1:]] + [('rep', i, t) for i in idx for t in INSERTS if t != ps[i][1]]
    return out, rest


def apply(ps, e):
    kind, i, t = e
    ps = list(ps)
    ps[i:i + 1] = {'del': [('ws', ' ')], 'dup': [ps[i], ps[i]], 'ins': [('op', t), ps[i]], 'rep': [('op', t)]}[kind]
    return join(ps)


def noise(rng):
    o = rng.randrange(5)
    if o == 0:
        return 'random bytes', syntax.decode(bytes(rng.randrange(256) for _ in range(rng.randrange(200))))
    if o == 1:
        return 'random tokens', ' '.join(rng.choice(VOCAB) for _ in range(rng.randrange(60)))
    if o == 2:
        return 'random body', 'fn main() {\n    ' + ' '.join(rng.choice(VOCAB) for _ in range(rng.randrange(1, 8))) + '\n}\n'
    if o == 3:
        return 'random decl', rng.choice(['struct s { ', 'enum e { ', 'fn f', 'fn f(', '#[', 'struct ', 'enum ', 'fn f«', 'struct s« ', 'enum e« ']) + ' '.join(rng.choice(VOCAB) for _ in range(rng.randrange(8))) + rng.choice(['', ' }', ' } fn main() { }', ') { } fn main() { }'])
    return 'random chars', ''.join(rng.choice('fn main(){}[]«»"\\/ \n.:=+-0x1azé#?~') for _ in range(rng.randrange(80)))


def deep(n):
    w = 'fn main() {\n%s\n}\n'
    yield 'parens', w % ('println(' + '(' * n + '1' + ')' * n + ')')
    yield 'parens open', w % ('println(' + '(' * n)
    yield 'brackets', w % ('a := ' + '[' * n + '1' + ']' * n)
    yield 'blocks', w % ('if true {' * n + '}' * n)
    yield 'blocks open', w % ('while true {' * n)
    yield 'sum', w % ('println(' + '1 + ' * n + '1)')
    yield 'unary', w % ('println(' + '-' * n + '1)')
    yield 'not', w % ('println(' + 'not ' * n + 'true)')
    yield 'ternary', w % ('println(' + 'true ? ' * n + '1' + ' : 2' * n + ')')
    yield 'ternary right', w % ('println(' + 'false ? 1 : ' * n + '2)')
    yield 'elseif', w % ('if false {}' + ' elseif false {}' * n)
    yield 'dots', w % ('a := 1\na' + '.b' * n)
    yield 'calls', w % ('main' + '()' * n)
    yield 'comment', '// ' + 'x' * (n * 20) + '\n' + w % 'println(1)'
    yield 'name', 'fn ' + 'n' * n + '() {\n}\n' + w % ('n' * n + '()')
    yield 'string', w % ('println("' + 'é' * n + '".length)')
    yield 'digits', w % ('println(' + '9' * n + ')')
    yield 'commas', w % ('println(' + ',' * n + ')')
    yield 'close', '}' * n
    yield 'array types', 'fn f(a: ' + '[]' * n + 'int) {\n}\n' + w % ''
    yield 'type args', 'fn f(a: ' + 'option«' * n + 'int' + '»' * n + ') {\n}\n' + w % ''
    yield 'attributes', '#[' + 'A, ' * n + 'B]\n' + w % ''
    yield 'funcs', ''.join('fn f%d() int = %s\n' % (i, 'f%d()' % (i - 1) if i else '1') for i in range(n)) + w % ''
    yield 'locals', w % '\n'.join('a%d := %d' % (i, i) for i in range(n))
    yield 'literal', w % ('a := [' + ', '.join(['1'] * n) + ']')
    if n <= 60:
        yield 'closures', w % ('f := ' + 'fn() int = (' * n + '1' + ')' * n + '\n')
        yield 'closure blocks', w % ('fn() {\n' * n + '}\n' * n)
        yield 'nested calls', 'fn i(a: int) int = a\n' + w % ('println(' + 'i(' * n + '1' + ')' * n + ')')
        yield 'generic calls', 'fn i«T»(a: T) T = a\n' + w % ('println(' + 'i(' * n + '1' + ')' * n + ')')
        yield 'options', w % ('a := ' + 'Some(' * n + '1' + ')' * n)


def judge(c, bad):
    """Verdict on one compilation."""
    if c.timeout:
        return 'the compiler does not terminate (%s limit)' % c.timeout
    if core.crashed(c):
        i = c.out.find(b'panic')
        return 'the compiler crashed (status %s): %r' % (c.rc, c.out[max(0, i):max(0, i) + 200])
    if c.rc == 0 and not c.exe:
        return 'status 0 but no executable'
    if c.rc == 1 and c.exe:
        return 'status 1 but an executable was written'
    if c.rc == 1 and not core.error_lines(c.out):
        return 'status 1 but no error is reported: %r' % c.out[-200:]
    if c.rc == 0 and bad:
        k, e = bad
        if k == 'lex':
            return 'malformed source accepted: %s error expected at %d:%d' % (e.kind, e.line, e.col)
        return 'malformed source accepted: unexpected %r at %d:%d (%s wanted)' % (e.tok.v, e.tok.line, e.tok.col, e.want)
    return None


def job(ctx, it):
    kind, key, n = it
    rng = core.rng_for('c10', ctx['seed'], kind, key)
    d = os.path.join(ctx['scratch'], 'j%s-%s' % (kind, key))
    res = []
    if kind == 'deep':
        cases = list(deep(n))
    elif kind == 'edits':
        cases = [('edit ' + e[0], apply(ctx['sinkps'], e)) for e in ctx['edits'][key:key + n]]
    elif kind == 'noise':
        cases = [noise(rng) for _ in range(n)]
    elif kind == 'prefix':
        base = ctx['bases'][key % len(ctx['bases'])]
        toks = syntax.lex(base)
        cuts = sorted(rng.sample(range(len(toks)), min(n, len(toks))))
        cases = [('prefix', base[:toks[q].i]) for q in cuts]
    else:
        base = ctx['gens'][key % len(ctx['gens'])] if kind == 'gen' else ctx['bases'][key % len(ctx['bases'])]
        cases = [mutate(rng, base, ctx['bases']) for _ in range(n)]
    for i, (k, src) in enumerate(cases):
        try:
            b = src.encode('utf-8', 'surrogateescape')
            src = syntax.decode(b)
        except UnicodeEncodeError:
            continue
        bad = syntax.check(src)
        shutil.rmtree(d, ignore_errors=True)
        c = ctx['comp'].compile_src(b, d, cpu=40, mem=6 << 30)
        v = judge(c, bad)
        res.append(dict(k=k, v=v, src=b if v else None, h=core.hashlib.sha1(b).hexdigest(), rc=c.rc, head=repr(b[:160]), bad=bad[0] if bad else None, syn=b'syntax error' in c.out, out=c.out[-3000:] if v else b''))
    shutil.rmtree(d, ignore_errors=True)
    return dict(kind=kind, res=res)


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch, seed=chk.seed)
    names, bases = zip(*corpus(chk))
    ctx['bases'] = [x for x in bases if syntax.check(x) is None]
    P = gen.Prof
    ctx['gens'] = [gen.make(core.rng_for('c10g', chk.seed, i), P(funcs=3, stmts=3, nodes=12, depth=3, nest=2, structs=2, enums=2)).source() for i in range(16)]
    n = chk.n(3, 12)
    seen = set()
    ctx['sinkps'] = pieces(SINK)
    first, rest = edits(ctx['sinkps'])
    er = core.rng_for('c10e', chk.seed)
    ctx['edits'] = first + (rest if chk.thorough else er.sample(rest, 1200))
    items = [('mut', i, 20) for i in range(len(ctx['bases']) * n)] + [('sink', 0, 20)] + [('gen', i, 12) for i in range(16 * n)] + [('noise', i, 25) for i in range(12 * n)] + \
            [('prefix', i, 12) for i in range(10 * n)] + [('deep', 0, 2), ('deep', 1, 40), ('deep', 2, 400)] + ([('deep', 3, 4000)] if chk.thorough else [])
    items = [('edits', i, 16) for i in range(0, len(ctx['edits']), 16)] + items
    for r in core.pmap(job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for x in r['res']:
            chk.saw(x['h'], nontrivial=True)
            chk.note('status_%s' % x['rc'])
            if x['k'] not in seen:
                seen.add(x['k'])
                chk.sample(dict(kind=x['k'], status=x['rc'], malformed=x['bad'], source=x['head']))
            chk.note('malformed_%s' % x['bad'] if x['bad'] else 'well_formed')
            chk.note('kind ' + x['k'] if r['kind'] != 'deep' else 'kind deep')
            if not x['bad'] and x['syn']:
                chk.note('well_formed_but_syntax_error')
            if x['v']:
                chk.violation('%s (%s): %s' % (r['kind'], x['k'], x['v']), {'program.clara': x['src'], 'compiler.txt': x['out']})
