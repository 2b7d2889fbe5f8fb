import os, re, shutil
from . import core, gen, diff, big, c09

RULE = ('random programs dominated by data: structs of 1 to 6 fields, enums of up to 7 cases and 5 fields, arrays, generic instances of them and '
        'generic functions over them, aliasing, reads and writes through nested paths, match in any case order; one evaluation is one test function '
        'whose event trace (ending with a dump of all reachable data) is compared with the reference evaluator')


def genericjob(ctx, key):
    """Generic functions, structs and enum cases over nested types (functions which take and return functions), instantiated with nested types: all are valid and run to the end."""
    m = c09.Mutator.__new__(c09.Mutator)
    m.r = core.rng_for('c05gen', key)
    src, n = c09.HELPERS, 8
    for i in range(n):
        _, dec, st = m.d_generic(False)
        text = dec + '\nfn hqz() {\n%s\n    println(%d)\n}\n' % (st, i)
        src += re.sub(r'\b([hH]q[a-z])\b', r'\g<1>_%d' % i, text)
    src += 'fn main() {\n' + ''.join('    hqz_%d()\n' % i for i in range(n)) + '}\n'
    exp = ''.join('%d\n' % i for i in range(n)).encode()
    d = os.path.join(ctx['scratch'], 'gen%s' % key)
    v, r = diff.check_program(ctx, src, exp, d)
    shutil.rmtree(d, ignore_errors=True)
    return dict(key=key, v=v, src=src, exp=exp, out=r.out if r else b'', n=n)


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch)
    big.run(chk, ctx, ['cases', 'instances', 'named'])
    for r in core.pmap(genericjob, ctx, ['%d.%d' % (chk.seed, i) for i in range(chk.n(60, 600))]):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for i in range(r['n']):
            chk.saw('generic %s %d' % (r['key'], i))
        chk.note('generic_instantiations', r['n'])
        if r['v']:
            chk.violation('generic declarations %s: %s' % (r['key'], r['v']), {'program.clara': r['src'], 'expected.txt': r['exp'], 'actual.txt': r['out']})
    P = gen.Prof
    base = dict(w_trace=.6, stmts=9, depth=4, nodes=40)
    profs = [('structs', P(structs=7, w_struct=5, generics=.2, **base)),
             ('enums', P(enums=6, w_enum=5, w_match=4, generics=.3, **base)),
             ('arrays', P(w_array=5, w_loop=2, **base)),
             ('generics', P(structs=5, enums=4, generics=.9, gfuncs=8, w_struct=3, w_enum=3, **base)),
             ('library', P(lib=4, generics=.5, **base))]
    diff.explore(chk, ctx, profs, chk.n([80, 80, 80, 100, 60], [600, 600, 600, 700, 500]))
