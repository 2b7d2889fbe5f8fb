import os
from . import core, gen, diff, big

RULE = ('random programs dominated by function values: literals and closures with up to five captured variables and five parameters, created '
        'in nested scopes and loops, stored in variables, fields, arrays and enum cases, returned, passed to (generic) functions, assigning captured '
        'variables, called repeatedly; one evaluation is one test function whose event trace is compared with the reference evaluator '
        '(capture by value at creation, private persistent environment)')


# function types whose result is left out, in every position of a type; calls of the results of calls
DIRECTED = [('types', '''struct holder {
    f: fn(int)
}
struct h2 {
    h: option«fn(int)»
    g: []fn(int) nothing
    f: fn(int) fn(int)
}
enum ev {
    On(f: fn(int), g: fn() fn())
    Off(f: fn() fn() fn())
}
fn say(i: int) {
    println(i)
}
fn twice(f: fn(int), i: int) {
    f(i)
    f(i + 1)
}
fn mk(k: int) fn(int) {
    return fn(i: int) { println(i * k) }
}
fn mk2(k: int) fn(int) fn() {
    return fn(i: int) fn() { 
        return fn() { println(i * k) }
    }
}
fn mk3(k: int) fn() fn() fn() = fn() fn() fn() = fn() fn() = fn() { println(k) }
fn id«T»(a: T) T = a
fn each(fs: []fn(int), i: int) {
    for f in fs {
        f(i)
    }
}
fn run(e: ev) {
    match e {
        case On(f, g):
            f(7)
            g()()
        case Off(f):
            f()()()
    }
}
fn main() {
    twice(say, 1)
    twice(mk(10), 2)
    mk2(3)(4)()
    mk3(5)()()()
    each([say, mk(2)], 9)
    h := Holder(mk(100))
    h.f(1)
    id(mk(6))(7)
    id«fn(int)»(say)(8)
    x := H2(Some(mk(4)), [say], fn(a: int) fn(int) { return fn(b: int) { println(a + b) } })
    y := x.f(1)
    y(2)
    x.g[0](3)
    match x.h {
        case Some(f): f(11)
        case None(): println("none")
    }
    run(On(say, fn() fn() = fn() { println("g") }))
    run(Off(mk3(77)))
}
''', '1 2 20 30 12 5 9 18 100 42 8 3 3 44 7 g 77'),
            ('chains', '''struct h {
    f: fn(int) fn(int) int
    g: fn() fn() fn() int
}
fn add(a: int, b: int) fn(int) int = fn(c: int) int = a + b + c
fn nest(a: int) fn(int) fn(int) int = fn(b: int) fn(int) int = fn(c: int) int = a * 100 + b * 10 + c
fn gid«T»(a: T) fn(T) T = fn(x: T) T = x
fn arr(a: int) fn() []int = fn() []int = [a, a + 1]
fn s(a: int) fn() h = fn() h = H(nest(a), fn() fn() fn() int = fn() fn() int = fn() int = a)
fn main() {
    println(1.add(2)(3))
    println(1.nest()(2)(3))
    x := H(nest(7), fn() fn() fn() int = fn() fn() int = fn() int = 9)
    println(x.f(8)(9))
    println(x.g()()())
    println("a".gid«string»()("z"))
    println(4.arr()()[1])
    println(5.s()().f(6)(7))
    println(5.s()().f(6)(7).add(1)(2))
    println(-1.add(2)(3))
    1.add(2)(3).println()
}
''', '6 123 789 9 z 5 567 570 -6 6')]


def directed(chk, ctx):
    for name, src, exp in DIRECTED:
        exp = ''.join(x + '\n' for x in exp.split()).encode()
        v, r = diff.check_program(ctx, src, exp, os.path.join(chk.scratch, name))
        chk.saw('directed ' + name)
        chk.note('directed_programs')
        if v:
            chk.violation('directed %s: %s' % (name, v), {'program.clara': src, 'expected.txt': exp, 'actual.txt': r.out if r else b''})


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch)
    directed(chk, ctx)
    big.run(chk, ctx, ['functions'])
    P = gen.Prof
    base = dict(w_closure=5, w_trace=1.5, stmts=7, depth=4, nodes=45)
    profs = [('closures', P(**base)),
             ('scalar', P(structs=0, enums=0, lib=0, w_string=.4, w_array=.5, generics=0, **base)),
             ('holders', P(w_struct=3, w_enum=2, w_array=2.5, structs=5, **base)),
             ('generic', P(generics=.8, gfuncs=6, **base)),
             ('loops', P(w_loop=3, w_if=2, nest=3, **base))]
    diff.explore(chk, ctx, profs, chk.n([100, 80, 80, 80, 80], [700, 500, 600, 600, 600]))
