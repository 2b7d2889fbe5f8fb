import os
from . import core, gen, diff, big

RULE = ('random well-typed terminating programs: nested if/elseif/else, while, for, match, return, shadowing and assignments with '
        'traced sub-expressions; one evaluation is one test function whose complete event trace is compared with the reference '
        'evaluator; non-trivial if the test is kept by the reference (terminates, no unspecified operation)')


# Ranges for which the documentation (docs/index.md: "increasing: beginning inclusive, end exclusive; flipped when decreasing")
# and the compiler disagree: the direction is taken from the text of the end, which counts down only if it is the literal 0.
RANGES = [('decreasing-range', 'for i in 5 .. 2 { t(i) }', [4, 3, 2]),
          ('decreasing-range', 'a := 3 b := 1 for i in a .. b { t(i) }', [2, 1]),
          ('range-up-to-zero', 'for i in -3 .. 0 { t(i) }', [-3, -2, -1])]
SPECIFIED = [('for i in 2 .. 5 { t(i) }', [2, 3, 4]), ('for i in 5 .. 0 { t(i) }', [4, 3, 2, 1, 0]), ('for i in 2 .. 2 { t(i) }', []),
             ('for i in 0 .. 0 { t(i) }', []), ('for i in -3 .. -1 { t(i) }', [-3, -2]), ('for i in 0x0 .. 0x3 { t(i) }', [0, 1, 2]),
             ('for i in -1 .. 1 { t(i) }', [-1, 0]), ('a := 8 b := 10 for i in a .. b { t(i) }', [8, 9]),
             ('a := 2 for i in a .. 0 { t(i) }', [1, 0])]


def ranges(chk, ctx):
    """Documented ranges one by one."""
    for i, (key, body, want) in enumerate([(None,) + x for x in SPECIFIED] + RANGES):
        src = 'fn t(i: int) { i.println() }\nfn main() { %s }\n' % body
        c = ctx['comp'].compile_src(src, os.path.join(chk.scratch, 'r%d' % i))
        if c.timeout == 'wall':
            raise core.Inconclusive('compiler ran into the wall clock watchdog')
        r = core.run_exe(c.exe) if c.exe else None
        exp = b''.join(b'%d\n' % x for x in want)
        chk.saw('range ' + body)
        chk.note('documented_ranges')
        if r and r.rc == 0 and r.out == exp:
            continue
        if key and r and r.rc == 0 and r.out == b'' and chk.known(key, '%s runs no iterations' % body):
            continue
        chk.violation('range %r: wanted %r, got %r' % (body, exp, r.out if r else c.out), {'program.clara': src})


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b))
    ranges(chk, ctx)
    big.run(chk, ctx, ['chain', 'cases', 'locals', 'jumps'])
    P = gen.Prof
    profs = [('flow', P(w_if=2.5, w_loop=2.5, w_match=2, stmts=8, nest=4, depth=3, w_trace=1.5, w_closure=.2)),
             ('mixed', P()),
             ('order', P(w_trace=4, w_loop=.6, depth=5, nodes=60, stmts=6)),
             ('deep', P(nest=6, stmts=4, depth=2, w_if=3, w_loop=2, w_match=3, enums=4))]
    diff.explore(chk, ctx, profs, chk.n([120, 80, 100, 60], [900, 600, 700, 500]))
