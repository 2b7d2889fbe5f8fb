"""Programs which are large in one dimension, with the output they must have. Sizes are chosen around powers of two, at which encodings change."""
import os, shutil
from . import core, diff


def chain(n, rng):
    """if with n elseif arms, in different forms."""
    src = ['fn pick(i: int) int {\n    if i == 0 {\n        return 1000\n    }']
    for k in range(1, n):
        src.append(' elseif i == %d {\n        %s\n    }' % (k, 'return %d' % (1000 + k) if k % 3 else 'x := %d\n        return x' % (1000 + k)))
    src.append(' else {\n        return -1\n    }\n}\n')
    src.append('fn show(i: int) {\n    if i < 0 {\n        println("neg")\n    }')
    for k in range(n):
        src.append(' elseif i < %d {\n        printf("below %d\\n")\n    }' % (10 * (k + 1), 10 * (k + 1)))
    src.append('\n    println("end")\n}\n')
    src.append('fn val(i: int) int = ' + ' : '.join('i == %d ? %d' % (k, 5 * k) for k in range(min(n, 60))) + ' : -5\n')
    ks = sorted(set([-1, 0, 1, 2, 5, 6, 7, n - 2, n - 1, n, n + 1] + [rng.randrange(n) for _ in range(8)]))
    src.append('fn main() {\n' + ''.join('    println(pick(%d))\n    show(%d)\n    println(val(%d))\n' % (k, k * 10 - 3, k) for k in ks) + '}\n')
    out = []
    for k in ks:
        out.append(str(1000 + k if 0 <= k < n else -1))
        v = k * 10 - 3
        if v < 0:
            out.append('neg')
        elif v < 10 * n:
            out.append('below %d' % (v // 10 * 10 + 10))
        out.append('end')
        out.append(str(5 * k if 0 <= k < min(n, 60) else -5))
    return ''.join(src), out


def cases(n, rng):
    """An enum with n cases."""
    f = [rng.randrange(4) for _ in range(n)]
    src = 'enum big {\n' + ''.join('    Case%d(%s)\n' % (i, ', '.join('a%d: %s' % (j, 'int' if j % 2 == 0 else 'string') for j in range(k))) for i, k in enumerate(f)) + '}\n'
    order = list(range(n))
    rng.shuffle(order)
    src += 'fn show(b: big) {\n    match b {\n'
    for i in order:
        src += '        case Case%d(%s):\n            printf("%d")\n' % (i, ', '.join('v%d' % j for j in range(f[i])), i)
        src += ''.join('            printf(" %s", v%d)\n' % ('%d' if j % 2 == 0 else '%s', j) for j in range(f[i])) + '            println("")\n'
    src += '    }\n}\nfn num(b: big) int {\n    match b {\n' + ''.join('        case Case%d(%s): return %d\n' % (i, ', '.join('v%d' % j for j in range(f[i])), i * 7) for i in range(n)) + '    }\n}\nfn main() {\n'
    out = []
    for i in sorted(set([0, n // 2, n - 1] + [rng.randrange(n) for _ in range(12)])):
        args = [str(100 * i + j) if j % 2 == 0 else '"s%d_%d"' % (i, j) for j in range(f[i])]
        src += '    c%d := Case%d(%s)\n    show(c%d)\n    println(num(c%d))\n' % (i, i, ', '.join(args), i, i)
        out += [' '.join([str(i)] + [a.strip('"') for a in args]), str(i * 7)]
    return src + '}\n', out


def locals_(n, rng):
    """A function with n variables, some of them objects."""
    src = 'fn mk(i: int) string = "v".append(i.toString())\nfn main() {\n'
    at = sorted(set([0, 1, n // 2, n - 2, n - 1] + [rng.randrange(n) for _ in range(6)]))
    for i in range(n):
        src += '    v%d := %s\n' % (i, 'mk(%d)' % i if i in at else str(3 * i))
    ints = [i for i in range(n) if i not in at]
    pick = sorted(rng.sample(ints, min(8, len(ints))))
    src += '    v%d = 5\n' % pick[0]
    src += '    for i in 0 .. 50 {\n        mk(i)\n    }\n'
    src += ''.join('    println(v%d)\n' % i for i in at + pick) + '}\n'
    return src, ['v%d' % i for i in at] + [str(5 if i == pick[0] else 3 * i) for i in pick]


def functions(n, rng):
    """n closures and n plain function literals, created, stored and called."""
    src = 'fn call(f: fn(int) int, i: int) int = f(i)\nfn main() {\n    fs := ['
    base = [rng.randrange(1000) for _ in range(n)]
    src += ', '.join('fn(a: int) int = a + %d' % b for b in base) + ']\n    k := 3\n    s := "q"\n    gs := ['
    src += ', '.join('fn(a: int) int = a + (k * %d)' % b if i % 2 else 'fn(a: int) int = a + (s.length * %d)' % b for i, b in enumerate(base)) + ']\n'
    src += '    k = 100\n    for f in fs {\n        println(call(f, 1))\n    }\n    for g in gs {\n        println(call(g, 2))\n    }\n}\n'
    return src, [str(1 + b) for b in base] + [str(2 + (3 * b if i % 2 else b)) for i, b in enumerate(base)]


def named(n, rng):
    """n functions, structs and enums, each with its own meaning."""
    src, main, out = '', '', []
    for i in range(n):
        v = rng.randrange(10 ** 6)
        src += 'struct rec%d {\n    a: int\n    b: string\n}\nfn use%d(r: rec%d, k: int) int = r.a + k + r.b.length\nfn over(r: rec%d) string = "over%d"\n' % (i, i, i, i, i)
        if i % 3 == 0 or i > n - 3:
            main += '    println(use%d(Rec%d(%d, "abc"), %d))\n    println(over(Rec%d(1, "")))\n' % (i, i, v, i, i)
            out += [str(v + i + 3), 'over%d' % i]
    return src + 'fn main() {\n' + main + '}\n', out


def instances(n, rng):
    """One generic struct, enum and function with n different type arguments."""
    src = 'struct box«T» {\n    v: T\n}\nenum opt«T» {\n    Yes(v: T)\n    No()\n}\nfn same«T»(a: T) T = a\nfn get«T»(o: opt«T», d: T) T {\n    match o {\n        case Yes(v): return v\n        case No(): return d\n    }\n}\n'
    main, out = '', []
    for i in range(n):
        src += 'struct el%d {\n    a: int\n}\n' % i
        main += '    println(get(Yes(Box(El%d(%d))), Box(El%d(0))).v.a + same(El%d(%d)).a)\n' % (i, i, i, i, i)
        out.append(str(2 * i))
    return src + 'fn main() {\n' + main + '}\n', out


def jumps(n, rng):
    """Loops and branches over bodies of n statements."""
    body = lambda ind: ''.join('%sx = x + %s\n' % (ind, 'a[%d]' % (i % 3) if i % 5 == 0 else str(i % 7)) for i in range(n))
    d = sum([1, 2, 3][i % 3] if i % 5 == 0 else i % 7 for i in range(n))
    src = 'fn work(k: int) int {\n    a := [1, 2, 3]\n    x := 0\n    i := 0\n    while i < k {\n%s        i = i + 1\n    }\n    if k == 2 {\n%s    } else {\n%s        x = x + 1\n    }\n    for e in a {\n%s    }\n    return x\n}\nfn main() {\n' % (body(' ' * 8), body(' ' * 8), body(' ' * 8), body(' ' * 8))
    src += ''.join('    println(work(%d))\n' % k for k in (0, 1, 2, 5)) + '}\n'
    return src, [str(d * (k + 4) + (k != 2)) for k in (0, 1, 2, 5)]


def roots(n, rng):
    """n objects which are live at once: variables, arguments of nested calls, elements of a literal, captured at each level."""
    src = 'fn mk(i: int) string {\n    s := "o".append(i.toString())\n    junk(2)\n    return s\n}\nfn junk(k: int) {\n    for i in 0 .. k {\n        x := [i, i, i]\n        y := "junk".append(x.length.toString())\n    }\n}\n'
    src += 'fn cat(a: string, b: string) string = a.append(b)\nfn six(a: string, b: string, c: string, d: string, e: string, f: string) string = a.append(b).append(c).append(d).append(e).append(f)\n'
    src += 'fn vars() {\n' + ''.join('    v%d := mk(%d)\n' % (i, i) for i in range(n)) + '    junk(20)\n' + ''.join('    println(v%d)\n' % i for i in range(n)) + '}\n'
    m = min(n, 200)
    src += 'fn nest() string = ' + ''.join('cat(mk(%d), ' % i for i in range(m)) + 'mk(%d)' % m + ')' * m + '\n'
    src += 'fn lit() {\n    a := [' + ', '.join('mk(%d)' % i for i in range(n)) + ']\n    junk(20)\n    for x in a {\n        println(x)\n    }\n}\n'
    k = min(n, 40)
    t = 'mk(0)'
    for i in range(k):
        p = ['mk(%d)' % (10 * i + j) for j in range(6)]
        p[rng.randrange(6)] = t
        t = 'six(%s)' % ', '.join(p)
    src += 'fn args() string = %s\n' % t

    def ev(t):
        import re
        return ''.join('o' + x for x in re.findall(r'mk\((\d+)\)', t))
    src += 'fn main() {\n    vars()\n    println(nest())\n    lit()\n    println(args())\n}\n'
    return src, ['o%d' % i for i in range(n)] + [''.join('o%d' % i for i in range(m + 1))] + ['o%d' % i for i in range(n)] + [ev(t)]


KINDS = dict(chain=chain, cases=cases, locals=locals_, functions=functions, named=named, instances=instances, jumps=jumps, roots=roots)
SIZES = dict(chain=[2, 5, 6, 7, 8, 16, 33, 130, 600], cases=[1, 2, 9, 31, 32, 33, 127, 129, 260, 1100], locals=[13, 15, 16, 17, 31, 33, 127, 129, 257, 8190, 8200, 9001], functions=[15, 17, 127, 129, 257, 300, 1030], named=[17, 129, 257, 1030],
             instances=[17, 129, 257, 1030], jumps=[3, 20, 130, 3000], roots=[7, 15, 16, 31, 32, 33, 63, 64, 65, 127, 129, 257])


def make(item, seed):
    kind, n = item
    src, out = KINDS[kind](n, core.rng_for('big', seed, kind, n))
    return src, ''.join(x + '\n' for x in out).encode()


def job(ctx, item):
    src, exp = make(item, ctx['seed'])
    d = os.path.join(ctx['scratch'], 'big-%s-%d' % item)
    run = ctx.get('big_run')
    v, r = run(ctx, src, exp, d) if run else diff.check_program(ctx, src, exp, d)
    shutil.rmtree(d, ignore_errors=True)
    return dict(item=item, v=v, src=src, exp=exp, out=r.out if r else b'', n=exp.count(b'\n'))


def run(chk, ctx, kinds, run=None):
    """Runs the large programs of some kinds. run: how to run one (check_program by default)."""
    ctx = dict(ctx, scratch=chk.scratch, seed=chk.seed, big_run=run)
    items = [(k, n) for k in kinds for n in SIZES[k]]
    items.sort(key=lambda x: -x[1])
    for r in core.pmap(job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('large %s %d' % r['item'])
        chk.note('large_programs')
        chk.note('large_program_outputs', r['n'])
        if r['v']:
            chk.violation('large program (%s, size %d): %s' % (r['item'] + (r['v'],)), {'program.clara': r['src'], 'expected.txt': r['exp'], 'actual.txt': r['out']})
