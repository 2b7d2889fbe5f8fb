from . import core, gen, diff, big

RULE = ('random programs dominated by calls: functions of 0 to 6 parameters of all types, overload sets, generic functions, dot calls, '
        'function values, recursion, with calls, divisions and shifts nested in argument lists; one evaluation is one test function whose event '
        'trace (every argument is traced) is compared with the reference evaluator; non-trivial if the reference keeps it')


def recursion(n):
    """Deep and mutual recursion with all six argument registers in use."""
    src = '''
fn sum(n: int, a: int, b: int, c: int, d: int, e: int) int {
    if n == 0 {
        return a + (2 * b) + (3 * c) + (4 * d) + (5 * e)
    }
    return sum(n - 1, b, c, d, e, a) + (n & 3)
}
fn even(n: int) bool = n == 0 ? true : odd(n - 1)
fn odd(n: int) bool = n == 0 ? false : even(n - 1)
fn ack(m: int, n: int) int {
    if m == 0 {
        return n + 1
    }
    if n == 0 {
        return ack(m - 1, 1)
    }
    return ack(m - 1, ack(m, n - 1))
}
fn fib(n: int) int = n < 2 ? n : fib(n - 1) + fib(n - 2)
fn build(n: int, s: string) string = n == 0 ? s : build(n - 1, s).append("x")
fn main() {
    println(sum(%d, 1, 2, 3, 4, 5))
    println(even(%d))
    println(odd(%d))
    println(ack(2, 9))
    println(fib(18))
    println(build(40, "s").length)
}
''' % (n, n, n)

    def s(n):
        v = [1, 2, 3, 4, 5]
        t = 0
        while n:
            v = v[1:] + v[:1]
            t += n & 3
            n -= 1
        return t + sum((i + 1) * x for i, x in enumerate(v))

    def fib(n):
        a, b = 0, 1
        for _ in range(n):
            a, b = b, a + b
        return a
    exp = '%d\n%s\n%s\n%d\n%d\n%d\n' % (s(n), 'true' if n % 2 == 0 else 'false', 'true' if n % 2 else 'false', 2 * 9 + 3, fib(18), 41)
    return src, exp.encode()


def recjob(ctx, n):
    import shutil, os
    src, exp = recursion(n)
    d = os.path.join(ctx['scratch'], 'rec%d' % n)
    v, r = diff.check_program(ctx, src, exp, d)
    shutil.rmtree(d, ignore_errors=True)
    return dict(n=n, v=v, src=src, exp=exp, out=r.out if r else b'')


def ovjob(ctx, key):
    """Overload sets whose members differ in one, often nested, type: every member must be reached by its own arguments only."""
    import shutil, os
    from .lang import tsrc
    rng = core.rng_for('c03ov', key)
    g = gen.Gen(rng, gen.Prof(structs=3, enums=3, generics=.9, lib=1.5, w_array=1.5, w_struct=2, w_enum=2, w_closure=.2))
    g.gen_types()
    decls, calls, n = [], [], 0
    for k in range(8):
        name = 'oset%d' % k
        sigs, keys = [], set()
        for _ in range(rng.choice([3, 4, 6])):
            if sigs and rng.random() < .8:
                s = list(rng.choice(sigs))
                i = rng.randrange(len(s))
                s[i] = g.near(s[i])
            else:
                s = [g.rtype(3, (), False) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
                if rng.random() < .3:
                    s[0] = g.inst(rng.choice([gen.PAIR, gen.RESULT, gen.OPTION]), 3)
            kk = repr([gen.noret(t) for t in s])
            if kk not in keys:
                keys.add(kk)
                sigs.append(s)
        for s in sigs:
            try:
                args = []
                for t in s:
                    g.nodes = 0
                    args.append(g.expr(t, 2, gen.Scope()).s(99))
            except gen.Discard:
                continue
            n += 1
            decls.append('fn %s(%s) int = %d\n' % (name, ', '.join('a%d: %s' % (i, tsrc(t)) for i, t in enumerate(s)), n))
            call = '%s(%s)' % (name, ', '.join(args)) if rng.random() < .7 else '(%s).%s(%s)' % (args[0], name, ', '.join(args[1:]))
            calls.append(('    printf("@%%d\\n", %s)\n' % call, '@%d\n' % n))
    order = list(range(len(calls)))
    rng.shuffle(order)
    out = [d.src() for d in g.structs + g.enums] + [f.src() for f in [g.tr, g.trb, g.trs, g.wi, gen.BMK, gen.BGET, gen.BSET] + g.funcs + g.genfuncs + list(g.shows.values())] + decls
    src = '\n'.join(out) + '\nfn main() {\n' + ''.join(calls[i][0] for i in order) + '}\n'
    exp = ''.join(calls[i][1] for i in order)
    d = os.path.join(ctx['scratch'], 'ov%s' % key)
    c = ctx['comp'].compile_src(src, d)
    v, got = None, b''
    if c.rc != 0 or not c.exe:
        v = 'valid program is not compiled (status %s): %s' % (c.rc, c.out[-1500:].decode('utf-8', 'replace'))
    else:
        r = core.run_exe(c.exe)
        got = r.out
        lines = [l for l in r.out.split(b'\n') if l.startswith(b'@')]
        if lines != exp.encode().split() or r.rc != 0:
            bad = [(a, b) for a, b in zip(exp.encode().split(), lines) if a != b][:3]
            v = 'wrong overload called: (expected, called) %r, status %s' % (bad, r.rc)
    shutil.rmtree(d, ignore_errors=True)
    return dict(key=key, v=v, src=src, exp=exp.encode(), out=got, n=n)


BVAL = {'int': '%d', 'string': '"s%d"', 'bool': 'true', '[]int': '[%d]', '[]string': '["q%d"]', 'option«int»': 'Some(%d)', 'option«string»': 'Some("%d")', 'pair«int, bool»': 'Pair(%d, true)', 'fn(int) int': 'fn(x: int) int { return x + %d }'}


def bindjob(ctx, key):
    """An overloaded function as the argument of a generic one: the member is selected by type parameters which earlier arguments bind; the others are bound by it."""
    import shutil, os
    rng = core.rng_for('c03bind', key)
    decls, calls, exp, n = '', '', [], 0
    val = lambda t: (BVAL[t] % rng.randrange(90)) if '%' in BVAL[t] else BVAL[t]
    for s in range(10):
        k = rng.randint(1, 4)
        tps = ['A', 'B', 'C', 'D'][:k]
        pos = list(range(k))
        m = rng.randint(2, 6)
        fixed = rng.sample(pos, rng.randint(1, k))      # positions bound before the function is reached
        while True:
            sigs = [[rng.choice(sorted(BVAL)) for _ in pos] for _ in range(m)]
            if len({tuple(x[p] for p in fixed) for x in sigs}) == m:
                break
        ret = rng.choice(['int', 'R'])
        before = list(fixed)
        rng.shuffle(before)
        after = [p for p in pos if p not in fixed]
        rng.shuffle(after)
        ps = ['p%d: %s' % (p, tps[p]) for p in before] + ['f: fn(%s) %s' % (', '.join(tps), ret)] + ['p%d: %s' % (p, tps[p]) for p in after]
        gen_ = tps + (['R'] if ret == 'R' else [])
        rng.shuffle(gen_)
        decls += 'fn bap%d«%s»(%s) %s = f(%s)\n' % (s, ', '.join(gen_), ', '.join(ps), ret, ', '.join('p%d' % p for p in pos))
        for sig in sigs:
            n += 1
            decls += 'fn bov%d(%s) int = %d\n' % (s, ', '.join('a%d: %s' % (i, t) for i, t in enumerate(sig)), n)
            args = [val(sig[p]) for p in before] + ['bov%d' % s] + [val(sig[p]) for p in after]
            calls += '    println(bap%d(%s))\n' % (s, ', '.join(args))
            exp.append(n)
    src = decls + 'fn main() {\n' + calls + '}\n'
    e = ''.join('%d\n' % x for x in exp).encode()
    d = os.path.join(ctx['scratch'], 'bind%s' % key)
    v, r = diff.check_program(ctx, src, e, d)
    shutil.rmtree(d, ignore_errors=True)
    return dict(key=key, v=v, src=src, exp=e, out=r.out if r else b'', n=n)


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch)
    P = gen.Prof
    base = dict(w_call=5, funcs=10, w_trace=2.5, w_loop=.4, w_match=.3, w_if=.4, nest=2, stmts=6, nodes=50, depth=5)
    profs = [('calls', P(overloads=.3, **base)),
             ('overloads', P(overloads=.9, **dict(base, funcs=7))),
             ('generic', P(generics=.8, gfuncs=6, overloads=.1, **dict(base, funcs=5))),
             ('scalars', P(structs=0, enums=0, lib=0, w_closure=.3, w_array=.4, w_string=.5, generics=0, rec=.3, **base)),
             ('records', P(rec=.5, **dict(base, funcs=6)))]
    diff.explore(chk, ctx, profs, chk.n([80, 100, 80, 80, 60], [600, 700, 600, 600, 500]))
    big.run(chk, ctx, ['named', 'functions', 'instances'])
    for r in core.pmap(recjob, ctx, [0, 1, 7, 1000, 20001] + ([40000 + chk.seed % 100] if chk.thorough else [])):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('recursion %d' % r['n'])
        chk.note('recursion_depths')
        if r['v']:
            chk.violation('recursion depth %d: %s' % (r['n'], r['v']), {'program.clara': r['src'], 'expected.txt': r['exp'], 'actual.txt': r['out']})
    for r in core.pmap(bindjob, ctx, ['%d.%d' % (chk.seed, i) for i in range(chk.n(16, 200))]):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for i in range(r['n']):
            chk.saw('overloaded argument %s %d' % (r['key'], i))
        chk.note('overloaded_function_arguments', r['n'])
        if r['v']:
            chk.violation('overloaded function as argument of a generic function %s: %s' % (r['key'], r['v']), {'program.clara': r['src'], 'expected.txt': r['exp'], 'actual.txt': r['out']})
    for r in core.pmap(ovjob, ctx, ['%d.%d' % (chk.seed, i) for i in range(chk.n(48, 400))]):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for i in range(r['n']):
            chk.saw('overload set %s %d' % (r['key'], i))
        chk.note('overload_targets', r['n'])
        if r['v']:
            chk.violation('overload sets %s: %s' % (r['key'], r['v']), {'program.clara': r['src'], 'expected.txt': r['exp'], 'actual.txt': r['out']})
