import os, shutil
from . import core, gen, diff
from .lang import *

RULE = ('(a) every operator applied to every pair of about 40 boundary values held in variables, as arguments and as literals; (b) flat operator '
        'sequences without parentheses, whose tree is built by the documented precedence and associativity; (c) random expression trees in all '
        'positions (argument, index, condition, return value, field, element). One evaluation is one evaluated expression (a, b) or one test '
        'function (c) whose value is compared with 63-bit reference arithmetic')

VALS = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 8, 10, 31, 32, 62, 63, 64, -64, 100, 127, 128, -128, 255, 256, 1023, 4095, 4096, 65535, 1 << 20, (1 << 31) - 1, 1 << 31,
        -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, -(1 << 32), (1 << 53) + 1, (1 << 61) - 1, 1 << 61, -(1 << 61), MAX - 1, MAX, MIN, MIN + 1]
OPS = ['+', '-', '*', '/', '&', '|', '^', '<<', '>>', '<', '<=', '>', '>=', '==']
NAMES = dict(zip(OPS, ['add', 'sub', 'mul', 'div', 'ban', 'bor', 'xor', 'shl', 'shr', 'clt', 'cle', 'cgt', 'cge', 'ceq']))


def ok(op, a, b):
    return not (op == '/' and b == 0 or op in ('<<', '>>') and not 0 <= b <= 62)


def txt(v):
    return (b'true' if v else b'false') if isinstance(v, bool) else b'%d' % v


def lit(v):
    return '%d' % v if v >= 0 else '(%d)' % v


def table(rng, vals):
    """All operators over all pairs of vals, through functions with the operands in different argument registers."""
    src = []
    exp = []
    for op in OPS:
        ret = 'bool' if op in ('<', '<=', '>', '>=', '==') else 'int'
        n = NAMES[op]
        src.append('fn %s2(a: int, b: int) %s = a %s b\n' % (n, ret, op))
        src.append('fn %s6(z: int, y: int, b: int, x: int, w: int, a: int) %s = a %s b\n' % (n, ret, op))
        src.append('fn %sl(a: int, b: int) %s {\n    r := a %s b\n    return r\n}\n' % (n, ret, op))
    body = ['    v := [%s]\n' % ', '.join('%d' % v for v in vals), '    n := v.length\n']
    for op in OPS:
        n = NAMES[op]
        guard = {'/': 'not (v[j] == 0)', '<<': 'v[j] >= 0 and v[j] < 63', '>>': 'v[j] >= 0 and v[j] < 63'}.get(op, 'true')
        pr = '%s2(v[i], v[j]).println()' % n
        if rng.random() < .5:
            pr = '(v[i] %s v[j]).println()' % op
            pr = 'println(v[i] %s v[j])' % op
        body.append('''    for i in 0 .. n {
        for j in 0 .. n {
            if %s {
                %s
                %s6(i, j, v[j], i, j, v[i]).println()
                %sl(v[i], v[j]).println()
            }
        }
    }
''' % (guard, pr, n, n))
        for a in vals:
            for b in vals:
                if ok(op, a, b):
                    exp += [txt(binop(op, a, b))] * 3
    body.append('''    for i in 0 .. n {
        println(-v[i])
        println(~v[i])
        println(-(-v[i]))
        println(~(~v[i]))
        println(not (v[i] > 0))
    }
''')
    for a in vals:
        exp += [txt(wrap(-a)), txt(~a), txt(a), txt(a), txt(not a > 0)]
    for a in (True, False):
        for b in (True, False):
            for op in ('and', 'or', '=='):
                body.append('    println(idb(%s) %s idb(%s))\n' % (('%s' % a).lower(), op, ('%s' % b).lower()))
                exp.append(txt(binop(op, a, b)))
            body.append('    println(not idb(%s))\n    println(not not idb(%s))\n' % (('%s' % a).lower(), ('%s' % b).lower()))
            exp += [txt(not a), txt(b)]
    src.append('fn idb(b: bool) bool = b\n')
    src.append('fn main() {\n' + ''.join(body) + '}\n')
    return '\n'.join(src), exp


def literals(rng, n):
    """Operators directly on literals, printed one by one."""
    body, exp = [], []
    while len(exp) < n:
        op = rng.choice(OPS)
        a = rng.choice(VALS) if rng.random() < .6 else wrap(rng.getrandbits(63))
        b = rng.choice(VALS) if rng.random() < .6 else wrap(rng.getrandbits(rng.choice([3, 6, 20, 63])))
        if op in ('<<', '>>'):
            b = rng.randint(0, 62)
        if not ok(op, a, b):
            continue
        body.append('    println(%s %s %s)\n' % (lit(a), op, lit(b)))
        exp.append(txt(binop(op, a, b)))
    return 'fn main() {\n' + ''.join(body) + '}\n', exp


LEVELS = [['*', '/'], ['+', '-'], ['<<', '>>'], ['<', '<=', '>', '>='], ['=='], ['&'], ['^'], ['|'], ['and'], ['or']]


def level(op):
    return [i for i, l in enumerate(LEVELS) if op in l][0]


def flat(rng):
    """A flat sequence of operands and operators (no parentheses) and its value by precedence climbing; None if it is ill-typed or unspecified."""
    n = rng.randint(2, 7)
    intops = ['+', '-', '*', '/', '+', '-', '*', '<<', '>>', '&', '^', '|']
    toks = [rng.choice(VALS[:16]) if rng.random() < .5 else rng.randint(-50, 5000)]
    pool = intops if rng.random() < .55 else intops[:9] + ['<', '<=', '>', '>=', '==', 'and', 'or', 'and', 'or']
    for _ in range(n):
        toks.append(rng.choice(pool))
        toks.append(rng.randint(0, 40) if toks[-1] in ('<<', '>>') else rng.choice(VALS) if rng.random() < .3 else rng.randint(-9, 99))
    pos = [0]

    class Bad(Exception):
        pass

    def prim():
        v = toks[pos[0]]
        pos[0] += 1
        return v

    def climb(maxlev):
        # levels 0 .. maxlev bind at least as tight
        left = prim()
        while pos[0] < len(toks):
            op = toks[pos[0]]
            l = level(op)
            if l > maxlev:
                break
            pos[0] += 1
            right = climb(l - 1) if l > 0 else prim()
            isb = isinstance(left, bool), isinstance(right, bool)
            if op in ('and', 'or'):
                if isb != (True, True):
                    raise Bad()
            elif op == '==':
                if isb[0] != isb[1]:
                    raise Bad()
            elif isb != (False, False):
                raise Bad()
            if l == 3 and pos[0] < len(toks) and level(toks[pos[0]]) == 3:
                raise Bad()
            if not isinstance(left, bool) and not ok(op, left, right):
                raise Bad()
            left = binop(op, left, right)
        return left
    try:
        v = climb(9)
    except Bad:
        return None
    names = {}
    out = []
    for i, t in enumerate(toks):
        if i % 2:
            out.append(t)
        elif rng.random() < .5 and t >= 0:
            out.append('%d' % t)
        else:
            nm = 'x%d' % len(names)
            names[nm] = t
            out.append(nm)
    return ' '.join(out), names, v


def flats(rng, n):
    src, calls, exp = [], [], []
    i = 0
    while len(exp) < n:
        f = flat(rng)
        if not f:
            continue
        text, names, v = f
        if len(names) > 6:
            continue
        ret = 'bool' if isinstance(v, bool) else 'int'
        src.append('fn e%d(%s) %s = %s\n' % (i, ', '.join('%s: int' % k for k in names), ret, text))
        calls.append('    println(e%d(%s))\n' % (i, ', '.join('%d' % x for x in names.values())))
        exp.append(txt(v))
        i += 1
    return ''.join(src) + 'fn main() {\n' + ''.join(calls) + '}\n', exp


def job(ctx, item):
    kind, k = item
    rng = core.rng_for('C01', kind, ctx['seed'], k)
    if kind == 'table':
        vals = VALS if k == 0 else sorted({wrap(rng.getrandbits(rng.choice([8, 31, 33, 63]))) for _ in range(30)})
        src, exp = table(rng, vals)
    elif kind == 'literals':
        src, exp = literals(rng, 400)
    else:
        src, exp = flats(rng, 300)
    exp = b'\n'.join(exp) + b'\n'
    d = os.path.join(ctx['scratch'], '%s%d' % (kind, k))
    v, r = diff.check_program(ctx, src, exp, d)
    shutil.rmtree(d, ignore_errors=True)
    return dict(item=item, v=v, n=exp.count(b'\n'), src=src, exp=exp, out=r.out if r else b'')


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch, seed=chk.seed)
    items = [('table', i) for i in range(chk.n(4, 40))] + [('literals', i) for i in range(chk.n(8, 80))] + [('flat', i) for i in range(chk.n(32, 200))]
    for r in core.pmap(job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.note('%s_expressions' % r['item'][0], r['n'])
        for i in range(r['n']):
            chk.saw('%s %d' % (r['item'], i))
        if r['v']:
            chk.violation('%s: %s' % (r['item'], r['v']), {'program.clara': r['src'], 'expected.txt': r['exp'], 'actual.txt': r['out']})
        elif r['item'] == ('flat', 0):
            chk.sample(dict(source=r['src'][:600], values=r['exp'][:200].decode()))
    P = gen.Prof
    base = dict(structs=1, enums=0, lib=0, generics=0, w_string=.2, w_closure=.3, w_struct=.4, w_array=.6, w_arith=9, w_tern=1.5, w_loop=.3, w_match=0, w_if=.4,
                nest=1, stmts=10, depth=7, nodes=90)
    profs = [('trees', P(**base)), ('pressure', P(**dict(base, w_call=6, nparams=6, funcs=8, w_trace=.3))),
             ('positions', P(**dict(base, w_array=3, w_struct=3, structs=3, w_closure=2, w_if=2, w_loop=1, nest=2)))]
    diff.explore(chk, ctx, profs, chk.n([80, 80, 60], [600, 600, 500]))
