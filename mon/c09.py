"""Programs with one violated typing rule must be rejected."""
import os, re, shutil
from . import core, gen
from .lang import *

RULE = ('a random well-typed program (which compiles) gets one typing error: an expression of the wrong type in one of about 60 contexts (the expression and both types are random), or one of about '
        '100 violated rules for names, calls, matches, returns, assignments and declarations, placed at a random expression or statement of the program (in nested blocks, closures, ternaries, literals, generic functions). '
        'One evaluation is one mutant; it must be reported with at least one error, status 1 and no executable')

HELPERS = '''
struct hhs {
    a: int
    b: string
}
struct hhg«T» {
    v: T
}
struct hhf {
    f: fn(int) int
    g: []int
    o: hho«int»
}
enum hhe {
    Hha(x: int)
    Hhb(y: string, z: int)
    Hhc()
}
enum hho«T» {
    Hsome(v: T)
    Hnone()
}
fn hhi(a: int) int = a
fn hhii(a: int, b: int) int = a
fn hhsix(a: int, b: int, c: int, d: int, e: int, f: int) int = f
fn hhst(a: string) string = a
fn hhb(a: bool) bool = a
fn hhn(a: int) {
}
fn hhid«T»(a: T) T = a
fn hhpick«T»(a: T, b: T) T = a
fn hhseq«A, B»(a: A, b: B) B = b
fn hhap«A, B»(f: fn(A) B, a: A) B = f(a)
fn hhfn(f: fn(int) int) int = f(1)
fn hharr(a: []int) int = a[0]
fn hhfnn(f: fn(int) nothing) {
}
fn hhopt(a: hho«int») int = 1
fn hhmk«T»() hho«T» = Hnone«T»()
fn hhov(a: int) int = a
fn hhov(a: string) int = 1
fn hhov(a: int, b: bool) int = a
fn hhow(a: string) int = 1
fn hhow(a: bool, b: int) int = b
fn hhptr(a: pointer) pointer = a
struct hhff«T» {
    f: fn(fn(T) int) int
    g: fn() fn(T) T
}
fn hhfs«T»(f: fn(fn(T) int) int, a: T) int = f(fn(q: T) int = 1)
fn hhth«A, B»(a: A, b: B, f: fn(A) B) B = f(a)
'''


class Text(E):
    """An expression given as text."""
    __slots__ = ('x',)

    def __init__(self, x, t='int'):
        self.x, self.t = x, t

    def s(self, p):
        return self.x


class TStmt:
    def __init__(self, text):
        self.text = text

    def src(self, i):
        return ''.join(pad(i) + l + '\n' for l in self.text.split('\n'))


# contexts which require an expression X of a type: (required type, template). Templates with result type int unless they are statements.
ARITH = ['+', '-', '*', '/', '<<', '>>', '&', '|', '^']
EXPR = [('int', '(X %s 1)' % o) for o in ARITH] + [('int', '(1 %s X)' % o) for o in ARITH] + \
       [('bool', '(X and true)'), ('bool', '(false and X)'), ('bool', '(X or true)'), ('bool', '(true or X)'), ('bool', 'not (X)'), ('int', '-(X)'), ('int', '~(X)')] + \
       [('int', '(X %s 1)' % o) for o in ['<', '<=', '>', '>=', '==']] + [('int', '(1 %s X)' % o) for o in ['<', '<=', '>', '>=', '==']] + \
       [('bool', '(X == true)'), ('bool', '(false == X)'),
        ('int', '[1, 2][X]'), ('int', '[[1], [2]][0][X]'), ('bool', '(X ? 1 : 2)'), ('int', '(true ? 1 : X)'), ('int', '(true ? X : 1)'), ('string', '(false ? X : "a")'),
        ('int', '[1, X]'), ('int', '[X, 1]'), ('int', '[1, 2, 3, X, 4]'), ('string', '["a", X]'), ('bool', '[true, X]'),
        ('int', 'hhi(X)'), ('int', 'hhii(1, X)'), ('int', 'hhii(X, 1)'), ('int', 'hhsix(1, 2, 3, 4, 5, X)'), ('int', 'hhsix(1, 2, X, 4, 5, 6)'), ('string', 'hhst(X)'), ('bool', 'hhb(X)'),
        ('int', 'hhpick(1, X)'), ('string', 'hhpick("s", X)'), ('int', 'hhpick(X, 1)'), ('int', 'hhid«int»(X)'), ('string', 'hhid«string»(X)'), ('int', 'hhpick«int»(1, X)'),
        ('int', 'hhseq«int, string»(X, "a")'), ('string', 'hhseq«int, string»(1, X)'),
        ('int', 'Hhs(X, "a")'), ('string', 'Hhs(1, X)'), ('int', 'Hhg«int»(X)'), ('int', 'Hha(X)'), ('string', 'Hhb(X, 1)'), ('int', 'Hhb("a", X)'), ('int', 'Hsome«int»(X)'),
        ('int', 'hhopt(Hsome(X))'), ('int', 'hhid(hhi(X))'), ('int', 'hharr([1, X])'),
        ('int', 'hhap(fn(q: int) int = q, X)'), ('int', 'hhap(fn(q: int) string { return "a" }, X)'), ('int', 'hhap(hhi, X)'),
        ('int', 'fn(q: int) int { return q }(X)'), ('int', 'hhfn(fn(q: int) int = X)'), ('int', 'hhfn(fn(q: int) int { return X })'), ('int', 'hhap«string, int»(fn(q: string) int = X, "a")'),
        ('string', 'Hhs(1, "a").b.append(X)'), ('int', 'Hhf(fn(q: int) int = q, [1], Hsome(1)).f(X)'), ('arr', 'hharr(X)'), ('arr', 'Hhf(hhi, X, Hsome(1))'), ('fn', 'hhfn(X)'), ('fn', 'Hhf(X, [1], Hsome(1))'),
        ('opt', 'hhopt(X)'), ('opt', 'Hhf(hhi, [1], X)'), ('string', 'Bytes(1).append(X)'), ('int', 'Bytes(1).get(X)'), ('int', 'Bytes(X)')]
STMT = [('int', 'hv := 1\nhv = X'), ('string', 'hv := "a"\nhv = X'), ('bool', 'hv := true\nhv = X'), ('arr', 'hv := [1]\nhv = X'), ('fn', 'hv := fn(q: int) int = q\nhv = X'), ('opt', 'hv := Hsome(1)\nhv = X'),
        ('int', 'hv := Hhs(1, "a")\nhv.a = X'), ('string', 'hv := Hhs(1, "a")\nhv.b = X'), ('int', 'hv := Hhg(1)\nhv.v = X'), ('int', 'hv := [1, 2]\nhv[0] = X'), ('int', 'hv := [1, 2]\nhv[X] = 5'),
        ('int', 'hv := [[1], [2]]\nhv[0][1] = X'), ('arr', 'hv := [[1], [2]]\nhv[0] = X'), ('fn', 'hv := Hhf(hhi, [1], Hsome(1))\nhv.f = X'), ('int', 'hv := Hhf(hhi, [1], Hsome(1))\nhv.g[0] = X'),
        ('bool', 'if X {\n}'), ('bool', 'if false {\n} elseif X {\n}'), ('bool', 'if false {\n} elseif true {\n} elseif X {\n} else {\n}'), ('bool', 'while X {\n}'),
        ('int', 'for hi in X .. 3 {\n}'), ('int', 'for hi in 0 .. X {\n}'), ('anyarr', 'for hi in X {\n}'), ('enum', 'match X {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case Hhc():\n}'),
        ('int', 'hv := fn() int {\n    return X\n}'), ('string', 'hv := fn(q: int) string {\n    if q == 1 {\n        return X\n    }\n    return "a"\n}'), ('int', 'hv := fn() int = X'),
        ('int', 'hv := fn() fn() int = fn() int = X'), ('bool', 'hv := fn(q: bool) {\n    while X {\n    }\n}'), ('int', 'for hi in [1, 2] {\n    hv := hi\n    hv = X\n}'), ('int', 'for hi in 0 .. 2 {\n    hi = X\n}'),
        ('int', 'match Hha(1) {\n    case Hha(hx):\n        hx = X\n    case Hhb(hx, hy):\n    case Hhc():\n}'), ('string', 'match Hhb("a", 1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n        hx = X\n    case Hhc():\n}'),
        ('int', 'hhn(X)'), ('int', 'hv := fn(q: int) {\n    q = X\n}'), ('nothing', 'hv := fn() {\n    return X\n}')]
REQ = {'arr': ('arr', 'int'), 'fn': ('fn', ('int',), 'int'), 'opt': ('en', 'hho', ('int',)), 'enum': ('en', 'hhe', ())}

# expressions which break a rule whatever their context
BADX = ['hnosuch', 'hnosuch(1)', 'hnosuch.a', 'hnosuch[0]', 'hhi(hnosuch)', '[hnosuch]', '[1, hnosuch]', '(hnosuch ? 1 : 2)', '(true ? hnosuch : 2)', '(true ? 1 : hnosuch)', 'hhi(1).hnosuch()', '1.hnosuch()',
        'Hhs(1, "a").c', 'Hhs(1, "a").a.b', 'Hhs(1, "a").hnosuch(1)', 'Hhg(1).w', 'Hhs(hnosuch, "a")', 'Hhs(1, "a").length', 'hhi(1).a', '1.length', '"a".size', '[1].size', 'true.a', 'Hha(1).x', 'Hhc().tag',
        'hhi()', 'hhi(1, 2)', 'hhii(1)', 'hhii(1, 2, 3)', 'hhsix(1, 2, 3, 4, 5)', 'Hhs(1)', 'Hhs(1, "a", 2)', 'Hhs()', 'Hha()', 'Hha(1, 2)', 'Hhc(1)', 'Hhb("a")', '1.hhi(2)', '1.hhii()', '"a".hhi()', '"a".hhii(1)',
        'hhid()', 'hhpick(1)', 'hhid«int, int»(1)', 'hhid«hnosuch»(1)', 'hhmk()', 'hhmk«int, int»()', 'hhi«int»(1)', 'Hhs«int»(1, "a")', 'Hhg«int, int»(1)', 'Hsome«int, string»(1)', 'Hnone()', 'hhseq«int»(1, 2)',
        'hhov()', 'hhov(true)', 'hhov("a", true)', 'hhov(1, 1)', 'hhov([1])', 'true.hhov()',
        'hhs', 'hhe', 'hhg', 'int', 'string', 'hhi(hhs)', 'hhi(int)', '(int + 1)', '[int]', '[hhs]', '(true ? hhe : hhe)', 'hhs(1, "a")', 'hhe(1)', 'int(1)',
        '5[0]', '"abc"[0]', 'true[0]', 'Hhs(1, "a")[0]', 'hhi[0]', '[1][0][0]', 'hhi(1)(2)', '[1][0](1)', 'Hhs(1, "a").a(1)', 'Hhs(1, "a").b(1)', '"a"(1)', 'true(1)', '1(1)',
        '("a" == "a")', '(Bytes(1) == Bytes(1))', '(Bytes(1) < Bytes(1))', '(hhn(1) == hhn(1))', '([1] == [1])', '(Hhs(1, "a") == Hhs(1, "a"))', '(Hhc() == Hhc())', '(hhst == hhst)', '("a" < "b")', '(true < false)', '(true + true)', '("a" + "b")', '([1] + [2])', '(hhi + hhi)',
        'fn(q: hnosuch) int { return 1 }', 'fn() hnosuch { return 1 }', 'fn(q: int, q: int) int { return 1 }', 'fn() int { }', 'fn(q: bool) int { if q { return 1 } }', 'fn(q: bool) int { if q { return 1 } else { } }',
        'fn(q: bool) int { while q { return 1 } }', 'fn(q: hhe) int { match q { case Hha(a): return 1 case Hhb(a, b): case Hhc(): return 2 } }', 'fn(q: hhg) int { return q.w }', 'fn(q: hhs) int { return q.c }',
        'fn(q: hhg«int, int») int { return 1 }', 'fn(q: int«int») int { return 1 }', 'fn(q: []hnosuch) int { return 1 }', 'fn(q: fn(hnosuch) int) int { return 1 }', 'fn(q: fn(int) hnosuch) int { return 1 }', 'fn(q: hhg«hnosuch») int { return 1 }', 'fn() { return 1 }', 'fn() int { return }',
        'hhfn(fn(q: string) int = 1)', 'hhfn(fn(q: int) string = "a")', 'hhfn(fn() int = 1)', 'hhfn(fn(q: int, r: int) int = 1)', 'hhfn(hhii)', 'hhfn(hhst)', 'hhfn(hhn)', 'hhfnn(hhi)', 'hhfnn(fn(q: int) int = q)', 'hhfnn(fn() { })', 'hhfnn(fn(q: string) { })', 'hhap(hhst, 1)', 'hhap(1, 1)', 'hhap(hhii, 1)', 'hhap(hhov, true)',
        'fn(q: int) int { return q }()', 'fn(q: int) int { return q }(1, 2)', 'hhopt(Hsome("a"))', 'hhopt(Hha(1))', 'hhopt(hhmk«string»())', 'hhpick(Hsome(1), Hsome("a"))', 'hhpick([1], ["a"])', 'hhpick(Hhg(1), Hhg("a"))', 'hhpick(hhi, hhst)',
        'hharr(["a"])', 'hharr([[1]])', 'hharr(Bytes(1))', '[[1], ["a"]]', '[hhi, hhst]', '[Hhg(1), Hhg(true)]', '[Hhc(), Hhs(1, "a")]', '[]', '[Hhg(1), Hhs(1, "a")][0]', 'hhi(hhn(1))', '(hhn(1) + 1)', '[1][hhn(1)]', '(hhn(1) ? 1 : 2)',
        'not 1', '-"a"', '-true', '~true', 'not "a"', '-[1]', '(1 and 2)', '(1 or true)', '("a" and "b")', '(true & false)', '(true << 1)', '(1 << true)', 'hhi(true and false)', 'hhb(1 + 2)', 'hhb(1 & 1)', 'hhi(1 < 2)', 'hhi(1 == 1)',
        'hhi(true ? "a" : "b")', 'hhi(["a"][0])', 'hhi(fn() string = "a")', 'hhi(Hhg("a").v)', 'hhst(Hhg(1).v)', 'hhi(hhid("a"))', 'hhst(hhap(hhi, 1))', 'hhst(hhseq("a", 1))', 'hhi(Hhs(1, "a").b)', 'hhst("a".length)', 'hhst([1].length)',
        'unsafe(1)', 'hhi(unsafe(1, 2, type(string)))', 'type(hnosuch)', 'type(int)', 'hhi(type(int))', '(type(int) + 1)', '[type(string)]', 'hhst(type(string))', 'type([]int)', 'type(fn(int) int)', 'hhid(type(hhs))',
        '[hhi][0].length', 'hhi.length', 'hhfn.length', 'Hhc().length', 'true.length', 'Hsome(1).length', 'Bytes(1).size', 'fn() int { return 1 }.length', 'hhg.length', '(hhptr ? 1 : 2)', '[1].a', '"a".a', '[1].length()', '"a".length()', '[1].length.a', '[1].length[0]', '[1].length(1)',
        'hhfn(hhow)', 'hhap(hhow, 1)', 'Hhf(hhow, [1], Hsome(1))', '[hhi, hhow]', 'hhfnn(hhow)', 'hhid«fn(int) int»(hhow)', 'hhfnn(hhov)', 'Hhg«fn(int) int»(hhow)', 'hhap«int, int»(hhow, 1)', 'hhow(1)', 'hhow(true)', 'hhow("a", 1)', 'hhow(1, true)', 'true.hhow()', '1.hhow()', '1.hhow(true)',
        'hhth(1, "a", hhi)', 'hhth(1, "a", hhst)', 'hhth("a", 1, fn(q: int) int = 1)', 'hhth(1, 1, fn() int = 1)', 'hhth(1, 1, fn(q: int, r: int) int = 1)', 'hhth(1, 1, 1)', 'hhth(1, 1, hhow)', 'hhth(1, "a", hhow)', 'hhth(true, 1, hhow)', 'hhth(1, 2, fn(q: int) string = "a")', 'hhth(1, "a", fn(q: string) string = q)', 'hhth«int, string»(1, "a", hhi)',
        'hhfs(fn(g: fn(int) int) int { return 1 }, "a")', 'hhfs(fn(g: fn(string) int) int { return 1 }, 1)', 'hhfs(fn(g: fn(int) string) int { return 1 }, 1)', 'hhfs(hhfn, "a")', 'hhfs(hhi, 1)', 'hhfs«string»(hhfn, "a")', 'Hhff«string»(hhfn, fn() fn(string) string { return hhst })', 'Hhff(hhfn, fn() fn(string) string { return hhst })', 'Hhff«int»(hhfn, fn() fn(int) int { return hhi }).f(hhst)', 'Hhff«int»(hhfn, fn() fn(int) int { return hhi }).f(fn(q: string) int = 1)',
        'Hhff«int»(hhfn, fn() fn(int) int { return hhi }).f(fn(q: int) string = "a")', 'Hhff«int»(hhfn, fn() fn(int) int { return hhi }).g()("a")', 'hhst(Hhff«int»(hhfn, fn() fn(int) int { return hhi }).g()(1))', 'Hhff«int»(hhfn, fn() fn(int) string { return fn(q: int) string = "a" })',
        'hhi(unsafe(1, 2))', 'unsafe(1, 2, 3, 4)', 'unsafe()', 'hhid(printf())', 'hhid(printf(1))', 'hhid(printf(["a"], 1))', 'hhid(printf(true))', 'hhid(debug("a"))', 'hhid(debug(1, 2))', 'hhi(printf("a"))']
# statements which break a rule whatever their context
# every binary operator with one operand of another type
BADX += ['(%s %s %s)' % ((a, o, b) if k else (b, o, a)) for o in ('+', '-', '*', '/', '<<', '>>', '&', '|', '^', '<', '<=', '>', '>=', '==') for a in ('1',) for b in ('"a"', 'true', '[1]', 'Hhs(1, "a")', 'hhi') for k in (0, 1)]
BADX += ['(%s %s %s)' % ((a, o, b) if k else (b, o, a)) for o in ('and', 'or', '==') for a in ('true',) for b in ('"a"', '1', '[true]', 'hhi') for k in (0, 1)]

# an expression which has a type and an error inside, wherever an expression can stand
INNER = ['hhfn(fn(q: int) int = hnosuch)', 'hhfn(fn(q: int) int {\n        return "a"\n    })', 'hhap(fn(q: int) int = hhi("a"), 1)', 'hhth(1, 2, fn(q: int) int = hhi(hhi))']
INX = ['(L == 1 ? 1 : 2)', '(1 == L ? 1 : 2)', '(true ? L : 2)', '(true ? 1 : L)', '[L]', '[1, L]', '[1, L, 2]', '[1][L]', '[L][0]', '(L + 1)', '(1 + L)', '-L', '~L', '(not (L == 1))', '(L < 1)', '(1 < L)', '(L << 1)', '(1 & L)', '(L == 1 and true)', '(true or L == 1)', 'hhi(L)', 'hhii(1, L)', 'hhii(L, 1)',
       'L.hhi()', '1.hhii(L)', 'Hhs(L, "a")', 'Hhs(L, "a").a', 'Hsome(L)', 'Hhg(L).v', 'hhid(L)', 'hhpick(L, 1)', 'hhpick(1, L)', 'hhov(L)', 'hhov(L, true)', '[[L]][0]', '(L)', 'fn() int = L', 'fn() int {\n        return L\n    }', 'hhi((true ? L : 1))', 'toString(L)']
INS = ['if L == 1 {\n}', 'if true {\n} elseif L == 1 {\n}', 'while L == 1 {\n}', 'for hz in 0 .. L {\n}', 'for hz in L .. 9 {\n}', 'for hz in [L] {\n}', 'match Hsome(L) {\n    case Hsome(a):\n    case Hnone():\n}', 'hv := 1\nhv = L', 'hv := [1]\nhv[L] = 1', 'hv := [1]\nhv[0] = L', 'hv := Hhg(1)\nhv.v = L', 'hv := L', 'L', 'if true {\n    hv := L\n} else {\n}', 'if true {\n} else {\n    hv := L\n}', 'match Hhc() {\n    case Hha(a):\n    case Hhb(a, b):\n        hv := L\n    case Hhc():\n}', 'printf("%d", L)', 'while true {\n    hv := L\n    return\n}', 'for hz in [1] {\n    hv := L\n}']
BADX += [t.replace('L', INNER[i % len(INNER)]) for i, t in enumerate(INX)] + [t.replace('L', INNER[(i + 1) % len(INNER)]) for i, t in enumerate(INX)]
BADX += ['(true ? fn() int = hnosuch : fn() int = 1)', '(true ? fn() int = 1 : fn() int = hnosuch)', '[fn() int = hnosuch]', '[fn() int = 1, fn() int = hnosuch]', '[fn() int = 1, fn() int = "a"]', 'fn() fn() int = fn() int = hnosuch', 'hhid(fn() int = hnosuch)', 'Hsome(fn() int = hnosuch)']

BADS = ['hnosuch = 1', 'hv := hhow', 'hv := [hhow]', 'hv := hhi\nhv = hhow', 'hv := fn(q: int) int = q\nhv = hhow', 'hv := Hhf(hhi, [1], Hsome(1))\nhv.f = hhow', 'hv := [hhi]\nhv[0] = hhow', 'hv := true ? hhow : hhow', 'hv := fn() fn(int) int = hhow', 'hv := fn() fn(int) int {\n    return hhow\n}',
        'hv := hhsix\nhv(1, 2, 3, 4, 5, 6)', 'hv := [hhsix]\nhv[0](1, 2, 3, 4, 5, 6)', 'hv := fn(a: int, b: int, c: int, d: int, e: int, f: int, g: int) int = a', 'hv := fn(a: int, b: int, c: int, d: int, e: int, f: int) int = a', 'hv := fn(a: int, b: int, c: int, d: int, e: int, f: int) int {\n    return f\n}', 'hv := fn(a: int, b: int, c: int, d: int, e: int, f: int) {\n}', 'hv := [fn(a: int, b: int, c: int, d: int, e: int, f: int) int = a]', 'printf("%d", 1, 2, 3, 4, 5, 6)', 'printf("%d", 1, 2, 3, 4, 5, 6, 7, 8)',
        'ha := 1\nhb := 2\nhc := 3\nhd := 4\nhe := 5\nhf := 6\nhg := 7\nhv := fn() int = ha + hb + hc + hd + he + hf + hg', 'ha := 1\nhb := 2\nhc := 3\nhd := 4\nhe := 5\nhf := 6\nhg := 7\nhv := fn() fn() int = fn() int = ha + hb + hc + hd + he + hf + hg', 'fn(a: pointer) {\n    hv := a ? 1 : 2\n}', 'fn(a: pointer) {\n    if a {\n    }\n}', 'fn(a: pointer) {\n    while a {\n    }\n}', 'fn(a: pointer) {\n    hv := a and true\n}', 'fn(a: pointer) {\n    hv := not a\n}', 'fn(a: pointer) {\n    hv := a.length\n}',
        'fn(a: pointer) {\n    hv := a + 1\n}', 'fn(a: pointer) {\n    hv := a < a\n}', 'fn(a: pointer) {\n    hhi(a)\n}', 'fn(a: pointer) {\n    a = 1\n}', 'fn(a: pointer) {\n    for x in a {\n    }\n}', 'fn(a: pointer) {\n    hv := a[0]\n}', 'fn(a: pointer) {\n    hv := [a, 1]\n}', 'fn(a: pointer) {\n    hhptr(1)\n}', 'hv := fn(q: hhg«int, int») int { return 1 }\nhv(1)', 'hv := fn() hho«int, int» { return Hsome(1) }\nhv = hhi', 'hv := [fn(q: hhs«int») int = 1]\nhv[0](1)', 'hnosuch.a = 1', 'hnosuch[0] = 1', 'hnosuch(1)', 'hv := hv', 'hv := 1\nhv := 2', 'hv := 1\nhv := "a"', 'if true {\n    hz := 1\n}\nhhi(hz)', 'while false {\n    hz := 1\n}\nhz = 2', 'for hz in 0 .. 2 {\n}\nhhi(hz)', 'for hz in [1] {\n}\nhhi(hz)',
        'if false {\n    hz := 1\n} else {\n    hz = 2\n}', 'if false {\n    hz := 1\n} elseif hz == 1 {\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hy, hz):\n        hhi(hx)\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hy, hz):\n    case Hhc():\n}\nhhi(hx)',
        'hhi(hlate)\nhlate := 1', 'hv := fn() int = hlate\nhlate := 1', 'hv := fn(q: int) int = q\nhhi(q)', 'hv := fn() int {\n    hz := 1\n    return hz\n}\nhhi(hz)', 'hv := fn() int = hv()',
        'hhi = 1', 'hhi = fn(q: int) int = q', 'hhi(1) = 2', '5 = 6', '"a" = "b"', 'hhs = 1', 'Hhs = 1', 'int = 1', 'Hhs(1, "a") = Hhs(2, "b")', 'hv := [1]\nhv.length = 2', '"a".length = 3', 'hv := "a"\nhv.length = 3', '(1 + 2) = 3', 'true = false', '[1] = [2]', 'hhi(1) := 2', '[1][0] := 2', '5 := 1', 'hv := Hhs(1, "a")\nhv.a := 3',
        'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n}', 'match Hha(1) {\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hha(hx):\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case Hhc():\n    case Hhc():\n}',
        'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case Hnosuch():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case Hnone():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case Hhc():\n    case Hnone():\n}',
        'match Hha(1) {\n    case Hha():\n    case Hhb(hx, hy):\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx, hy):\n    case Hhb(hx, hy):\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hx):\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n        hhst(hx)\n    case Hhb(hx, hy):\n    case Hhc():\n}',
        'match Hsome("a") {\n    case Hsome(hx):\n        hhi(hx)\n    case Hnone():\n}', 'match Hsome([1]) {\n    case Hsome(hx):\n        hhst(hx[0])\n    case Hnone():\n}', 'match Hsome(1) {\n    case Hsome(hx):\n}', 'match 1 {\n    case Hha(hx):\n}', 'match "a" {\n}', 'match Hhs(1, "a") {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case Hhc():\n}', 'match Hha(1) {\n    case hhi(hx):\n    case Hhb(hx, hy):\n    case Hhc():\n}', 'match Hha(1) {\n    case Hhs(hx, hy):\n    case Hhb(hx, hy):\n    case Hhc():\n}', 'match Hha(1) {\n}', 'match hnosuch {\n    case Hha(hx):\n}',
        'for hx in 5 {\n}', 'for hx in "abc" {\n}', 'for hx in Hhs(1, "a") {\n}', 'for hx in hhi {\n}', 'for hx in true .. false {\n}', 'for hx in "a" .. "b" {\n}', 'for hx in ["a"] {\n    hhi(hx)\n}', 'for hx in 0 .. 3 {\n    hhst(hx)\n}', 'for hx in hnosuch {\n}', 'for hx in [1] {\n    hx = "a"\n}', 'for hx in 0 .. 3 {\n    hx := "a"\n}',
        'hv := fn(a: int) int = a\nhv = hhii', 'hv := fn(a: int) int = a\nhv("a")', 'hv := fn(a: int) int = a\nhv()', 'hv := fn(a: int) int = a\nhhst(hv(1))', 'hv := [hhi]\nhv[0]("a")', 'hv := [fn(a: int) string = "s"]\nhhi(hv[0](1))', 'hv := hhov', 'hv := 1\nhv(1)', 'hv := "a"\nhv.a', 'hv := [1]\nhv["a"] = 1', 'hv := [1]\nhv[0] = "a"', 'hv := Hhg(1)\nhv = Hhg("a")', 'hv := Hsome(1)\nhv = Hsome("a")', 'hv := Hsome(1)\nhv = Hnone«string»()', 'hv := hhmk«int»()\nhv = hhmk«string»()', 'hv := Hhf(hhi, [1], Hsome(1))\nhv.f("a")', 'hv := Hhf(hhi, [1], Hsome(1))\nhhst(hv.f(1))', 'hv := Hhf(hhi, [1], Hsome(1))\nhhst(hv.g[0])', 'hv := Hhf(hhi, [1], Hsome(1))\nhv.g["a"] = 1', 'hv := Hhf(hhi, [1], Hsome(1))\nhv.o = Hha(1)']
# declarations which break a rule
BADS += [t.replace('L', INNER[i % 2 * 2]) for i, t in enumerate(INS)]

BADD = ['fn hbad«T»(a: T) T {\n}', 'fn hbad«T»(a: T, b: bool) T {\n    if b {\n        return a\n    }\n}', 'fn hbad«T»(a: T) []T {\n}', 'fn hbad«A, B»(f: fn(A) B, a: A) B {\n    f(a)\n}', 'fn hbad«T»(a: T) T {\n    return\n}', 'fn hbad() fn() int {\n}', 'fn hbad() bool {\n}', 'fn hbad() []int {\n}', 'fn hbad() hhs {\n}', 'fn hbad() hhe {\n}', 'fn hbad() hho«int» {\n}', 'fn hbad() bytes {\n}', 'fn hbad() pointer {\n}',
        'struct hbad {\n    a: fn() int\n    a: int\n}', 'struct hbad {\n    a: int\n    a: fn() int\n}', 'struct hbad {\n    a: fn() int\n    a: fn() int\n}', 'struct hbad {\n    a: []int\n    b: int\n    a: []int\n}', 'struct hbad«T» {\n    a: T\n    a: T\n}', 'enum hbad {\n    Hqq(a: fn() int, a: int)\n}', 'enum hbad {\n    Hqq(a: int)\n    Hqq(b: string)\n}', 'enum hbad {\n    Hqq()\n    Hqr()\n    Hqq(b: string)\n}',
        'enum hbad {\n    Hqq(a: int)\n}\nfn Hqq(a: string) int = 1', 'fn Hqq(a: string) int = 1\nenum hbad {\n    Hqq(a: int)\n}', 'enum hbad {\n    Hqq(a: int)\n}\nfn Hqq() {\n}', 'enum hbad«T» {\n    Hqq(a: T)\n}\nfn Hqq«T»(a: T, b: T) T = a', 'fn Hsome(a: string) int = 1',
        'enum hbad {\n    Hqq(a: int)\n}\nenum hbad2 {\n    Hqq(a: string)\n}', 'enum hbad {\n    Hqq(a: int)\n}\nfn Hqq(a: int) int = a', 'struct hbad {\n    a: int\n}\nenum hbad2 {\n    Hbad(a: int)\n}', 'struct hbad {\n    a: int\n}\nenum hbad {\n    Hqq()\n}', 'enum hbad {\n    Hqq()\n}\nenum hbad {\n    Hqr()\n}', 'fn hbad(a: int) int = a\nfn hbad(b: int) int = b', 'fn hbad(a: int) int = a\nfn hbad(b: int) string = ""', 'fn hbad«T»(a: T) T = a\nfn hbad«T»(a: T) T = a', 'fn main() {\n}',
        'fn hbad(a: hnosuch) {\n}', 'fn hbad() hnosuch {\n    return 1\n}', 'fn hbad(a: []hnosuch) {\n}', 'fn hbad(a: fn(hnosuch)) {\n}', 'fn hbad(a: fn(int) hnosuch) {\n}', 'fn hbad(a: hhg«hnosuch») {\n}', 'fn hbad(a: hhg«int, int») {\n}', 'fn hbad(a: hhs«int») {\n}', 'fn hbad(a: int«int») {\n}', 'fn hbad(a: hho«int, int») {\n}', 'fn hbad(a: hhe«int») {\n}', 'fn hbad() []hhg«int, int» {\n    return [Hhg(1)]\n}',
        'fn hbad(a: int, a: int) {\n}', 'fn hbad(a: int, a: string) {\n}', 'fn hbad() int {\n}', 'fn hbad() string {\n    println(1)\n}', 'fn hbad(a: int) int {\n    if a == 1 {\n        return 1\n    }\n}', 'fn hbad(a: int) int {\n    if a == 1 {\n        return 1\n    } elseif a == 2 {\n        return 2\n    }\n}', 'fn hbad(a: int) int {\n    if a == 1 {\n        return 1\n    } else {\n        println(1)\n    }\n}', 'fn hbad(a: int) int {\n    if a == 1 {\n    } elseif a == 2 {\n        return 2\n    } else {\n        return 3\n    }\n}',
        'fn hbad(a: int) int {\n    while a == 1 {\n        return 1\n    }\n}', 'fn hbad(a: []int) int {\n    for x in a {\n        return x\n    }\n}', 'fn hbad(a: hhe) int {\n    match a {\n        case Hha(x):\n            return x\n        case Hhb(x, y):\n            println(x)\n        case Hhc():\n            return 3\n    }\n}', 'fn hbad(a: hhe) int {\n    match a {\n        case Hha(x):\n            return x\n        case Hhb(x, y):\n            return y\n        case Hhc():\n    }\n}',
        'fn hbad() int = "a"', 'fn hbad() string = 1', 'fn hbad() bool = 1', 'fn hbad() []int = [""]', 'fn hbad(a: string) int = a', 'fn hbad() = 1', 'fn hbad() {\n    return 1\n}', 'fn hbad() int {\n    return\n}', 'fn hbad() int {\n    return "a"\n}', 'fn hbad(a: int) int {\n    if a == 1 {\n        return "a"\n    }\n    return 1\n}', 'fn hbad() fn(int) int = hhst', 'fn hbad() fn(int) int = hhii', 'fn hbad() fn(int) int = fn(a: int) string = "a"', 'fn hbad() fn() nothing = hhi', 'fn hbad() hho«int» = Hsome("a")', 'fn hbad() hho«int» = Hha(1)', 'fn hbad() hhs = Hhg(1)',
        'fn hbad«T»(a: T) int = a', 'fn hbad«T»(a: int) T = a', 'fn hbad«A, B»(a: A) B = a', 'fn hbad«T»(a: T, b: T) bool = a == b', 'fn hbad«T»(a: T) int = a + 1', 'fn hbad«T»(a: T) bool = not a', 'fn hbad«T»(a: T) int = hhi(a)', 'fn hbad«T»(a: []T) int = a[0]', 'fn hbad«T»(a: T) []T = [a, 1]', 'fn hbad«T»(a: T) T {\n    a = 1\n    return a\n}', 'fn hbad«T»(a: hhg«T») int = a.v', 'fn hbad«A, B»(a: A, b: B) A = true ? a : b', 'fn hbad«A, B»(a: hhg«A») hhg«B» = a', 'fn hbad«T»(a: hho«T») int {\n    match a {\n        case Hsome(v):\n            return v\n        case Hnone():\n            return 1\n    }\n}', 'fn hbad«A, B»(f: fn(A) B, b: B) B = f(b)', 'fn hbad«A, B»(f: fn(A) B, a: A) A = f(a)', 'fn hbad«T, T»(a: T) T = a', 'fn hbad«T»(a: T) int = a.length', 'fn hbad«T»(a: T) int = a(1)', 'fn hbad«T»(a: T) hho«T» = Hsome(1)', 'fn hbad«T»(f: fn() T) int = f()', 'fn hbad«T»(a: T) int {\n    for x in a {\n    }\n    return 1\n}', 'fn hbad«T»(a: T) int {\n    match a {\n        case Hha(x):\n            return 1\n    }\n}', 'fn hbad«A, B»(a: A, b: B) []A = [a, b]', 'fn hbad«T»(a: T) fn(int) T = fn(q: int) T = q',
        'fn hhi(a: int) int = a', 'fn hhi(b: int) string = "a"', 'fn hhov(x: string) int = 2', 'struct hhs {\n    q: int\n}', 'enum hhe {\n    Hzz()\n}', 'enum hbad {\n    Hha(q: int)\n}', 'enum hbad {\n    Hqq()\n    Hqq()\n}', 'enum hbad {\n    Hqq(a: hnosuch)\n}', 'enum hbad {\n    Hqq(a: int, a: int)\n}', 'enum hbad«T, T» {\n    Hqq(a: T)\n}', 'enum hbad {\n    Hqq(a: T)\n}', 'enum hbad {\n    Hqq(a: hhg«int, int»)\n}',
        'struct hbad {\n    a: int\n    a: int\n}', 'struct hbad {\n    a: hnosuch\n}', 'struct hbad {\n    a: []hnosuch\n}', 'struct hbad {\n    a: T\n}', 'struct hbad«T» {\n    a: R\n}', 'struct hbad«T, T» {\n    a: T\n}', 'struct hbad {\n    a: hhg«int, string»\n}', 'struct hbad {\n    a: hhs«int»\n}', 'struct hbad {\n    a: fn(hnosuch) int\n}', 'struct hbad {\n    a: hho«hnosuch»\n}', 'struct Hbad {\n    a: int\n}', 'fn Hhs(a: int) int = a', 'struct hbad {\n    a: int\n}\nfn Hbad(a: int) int = a', 'struct hbad {\n    a: int\n}\nstruct hbad {\n    b: int\n}', 'fn hbad() {\n}\nfn hbad() {\n}', 'enum hbad {\n    Hqq()\n}\nfn hbad2() hhe = Hqq()',
        'struct hbad {\n    a: int\n    b: int\n    c: int\n    d: int\n    e: int\n    f: int\n    g: int\n}', 'fn hbad(a: int, b: int, c: int, d: int, e: int, f: int, g: int) {\n}', 'enum hbad {\n    Hqq(a: int, b: int, c: int, d: int, e: int, f: int)\n}', 'struct option {\n    a: int\n}', 'fn println(i: int) {\n}', 'struct list«T» {\n    a: T\n}', 'struct int {\n    a: string\n}', 'struct string {\n    a: int\n}']


# contexts for a random type T: V is an expression of type T, X one of the type S, which differs from T in one place.
# (kind, text, extra declarations): kind E expression, S statement, D declarations only
NEAR = [('E', 'hqa(X)', 'fn hqa(a: T) {\n}'), ('E', 'hqa(1, X)', 'fn hqa(b: int, a: T) int = b'), ('E', 'hhpick(V, X)', ''), ('E', 'hhpick(X, V)', ''), ('E', '[V, X]', ''), ('E', '[V, V, X, V]', ''),
        ('E', '(true ? V : X)', ''), ('E', 'Hqs(X)', 'struct hqs {\n    a: T\n}'), ('E', 'Hqs(1, X)', 'struct hqs«Q» {\n    b: Q\n    a: T\n}'), ('E', 'Hqe(X)', 'enum hqe {\n    Hqe(a: T)\n    Hqf(b: S)\n}'),
        ('E', 'hhid«T»(X)', ''), ('E', 'Hsome«T»(X)', ''), ('E', 'Hhg«T»(X)', ''), ('E', 'hqa(Hsome(X))', 'fn hqa(a: hho«T») {\n}'), ('E', 'hqa([X])', 'fn hqa(a: []T) {\n}'), ('E', 'hqa(Hhg([X]))', 'fn hqa(a: hhg«[]T») {\n}'),
        ('E', 'hqa(fn(q: S) int = 1)', 'fn hqa(f: fn(T) int) {\n}'), ('E', 'hqa(fn() S = X)', 'fn hqa(f: fn() T) {\n}'), ('E', 'hqa(hqb)', 'fn hqa(f: fn(T) int) {\n}\nfn hqb(q: S) int = 1'),
        ('E', 'hqa(hqb)', 'fn hqa(f: fn() T) {\n}\nfn hqb() S = X'), ('E', 'hqa(fn(q: S) fn(int) S = fn(r: int) S = q)', 'fn hqa(f: fn(T) fn(int) T) {\n}'), ('E', 'hqa(V)(X)', 'fn hqa(a: T) fn(T) int = fn(q: T) int = 1'),
        ('E', 'hhap(fn(q: T) int = 1, X)', ''), ('E', 'hhap(fn(q: int) T { return X }, 1)', ''), ('E', 'fn(q: T) int { return 1 }(X)', ''), ('E', 'fn() T = X', ''),
        ('E', 'hqa(hqb)', 'fn hqa(f: fn(fn(T) int) int) {\n}\nfn hqb(f: fn(S) int) int = 1'), ('E', 'hqa(Hnone«S»())', 'fn hqa(a: hho«T») {\n}'), ('E', 'hqa(hhmk«S»())', 'fn hqa(a: hho«T») {\n}'), ('E', 'hhpick(hhmk«T»(), hhmk«S»())', ''),
        ('E', '(true ? Hhg(V) : Hhg(X))', ''), ('E', '[Hsome(V), Hsome(X)]', ''), ('E', '[Hnone«T»(), Hnone«S»()]', ''), ('E', 'V.hqa(X)', 'fn hqa(a: T, b: T) int = 1'), ('E', 'hqo(X)', 'fn hqo(a: T) int = 1\nfn hqo(a: T, b: int) int = 1\nfn hqo() int = 1'),
        ('S', 'hv := V\nhv = X', ''), ('S', 'hv := [V]\nhv[0] = X', ''), ('S', 'hv := Hhg(V)\nhv.v = X', ''), ('S', 'hv := Hqs(V)\nhv.a = X', 'struct hqs {\n    a: T\n}'), ('S', 'for hx in [V] {\n    hx = X\n}', ''),
        ('S', 'match Hsome(V) {\n    case Hsome(hx):\n        hx = X\n    case Hnone():\n}', ''), ('S', 'hv := fn() T {\n    return X\n}', ''), ('S', 'hv := fn(q: bool) T {\n    if q {\n        return X\n    }\n    return V\n}', ''),
        ('S', 'hv := fn() T = V\nhv = fn() S = X', ''), ('S', 'hv := fn(q: T) {\n}\nhv(X)', ''), ('S', 'hv := fn(q: T) {\n}\nhv = fn(q: S) {\n}', ''), ('S', 'hv := Hsome(V)\nhv = Hsome(X)', ''), ('S', 'hv := [fn(q: T) int = 1]\nhv[0](X)', ''), ('S', 'hv := [[V]]\nhv[0] = [X]', ''),
        ('D', '', 'fn hqa() T = X'), ('D', '', 'fn hqa() T {\n    return X\n}'), ('D', '', 'fn hqa(a: T) S = a'), ('D', '', 'fn hqa(a: T, b: S) {\n    a = b\n}'), ('D', '', 'fn hqa(a: hhg«T») S = a.v'), ('D', '', 'fn hqa(a: []T) S = a[0]'), ('D', '', 'fn hqa(a: []T) []S = a'),
        ('D', '', 'fn hqa(a: hho«T») hho«S» = a'), ('D', '', 'fn hqa(a: hho«T», b: S) T {\n    match a {\n        case Hsome(v):\n            return v\n        case Hnone():\n            return b\n    }\n}'), ('D', '', 'fn hqa(f: fn(T) int, b: S) int = f(b)'), ('D', '', 'fn hqa(f: fn() T) S = f()'), ('D', '', 'fn hqa(f: fn() T) fn() S = f'), ('D', '', 'fn hqa(f: fn(T)) fn(S) nothing = f'),
        ('D', '', 'fn hqa(a: T, b: S) []T = [a, b]'), ('D', '', 'fn hqa(a: T, b: S) T = true ? a : b'), ('D', '', 'fn hqa(a: T, b: S) fn() T = fn() T = b'), ('D', '', 'fn hqa«Q»(a: T, b: Q) T = b'), ('D', '', 'fn hqa«Q»(a: Q, b: T) Q = b'), ('D', '', 'fn hqa«Q»(f: fn(Q) T, b: Q) S = f(b)'), ('D', '', 'struct hqs {\n    a: T\n}\nfn hqa(x: hqs, b: S) {\n    x.a = b\n}'), ('D', '', 'struct hqs {\n    a: []T\n}\nfn hqa(x: hqs, b: S) {\n    x.a[0] = b\n}')]


def slots(x):
    names = []
    for c in type(x).__mro__:
        names += getattr(c, '__slots__', ())
    return names + list(getattr(x, '__dict__', ()))


STMTS = (Das, As, Ex, If, While, ForR, ForA, Match, Return)


def sites(funcs):
    """Expression sites (holder, key), blocks (lists of statements), and structural nodes."""
    exprs, blocks, nodes = [], [], []

    def visit(holder, key, x, depth, generic):
        if isinstance(x, E):
            if not (isinstance(holder, As) and key == 'l') and not (isinstance(holder, CallV) and key == 'f'):
                exprs.append((holder, key, depth))
            children(x, depth + 1, generic)
        elif isinstance(x, STMTS):
            children(x, depth, generic)
        elif isinstance(x, list):
            if x and isinstance(x[0], STMTS) or (x == [] and key in ('body', 'b')):
                blocks.append((x, depth))
            for i, y in enumerate(x):
                visit(x, i, y, depth, generic)
        elif isinstance(x, tuple):
            x = list(x)
            for i, y in enumerate(x):
                if isinstance(y, list):
                    visit(None, i, y, depth + 1, generic)
                elif isinstance(y, E):
                    children(y, depth + 1, generic)

    def children(x, depth, generic):
        nodes.append((x, depth, generic))
        for a in slots(x):
            if a in ('t', 'd', 'fn', 'text', 'targs', 'params', 'tps', 'ret'):
                continue
            v = getattr(x, a, None)
            if isinstance(v, (E, list, tuple) + STMTS) and not isinstance(v, Func):
                visit(x, a, v, depth, generic)

    for f in funcs:
        if isinstance(f, Native):
            continue
        nodes.append((f, 0, bool(f.tps)))
        visit(f, 'body', f.body, 0, bool(f.tps))
    return exprs, blocks, nodes


def setref(holder, key, v):
    if isinstance(holder, list):
        old = holder[key]
        holder[key] = v
    else:
        old = getattr(holder, key)
        setattr(holder, key, v)
    return old


def getref(holder, key):
    return holder[key] if isinstance(holder, list) else getattr(holder, key)


class Mutator:
    def __init__(self, rng, prog):
        self.r, self.p, self.g = rng, prog, prog.gen
        g = self.g
        self.funcs = [f for f in g.funcs + g.genfuncs + list(g.shows.values()) + prog.tests if not isinstance(f, Native)]
        self.exprs, self.blocks, self.nodes = sites(self.funcs)
        self.extra = ''

    def wrong(self, req):
        """A random well-typed expression whose type is not req."""
        g, r = self.g, self.r
        want = REQ.get(req, req)
        for _ in range(50):
            t = g.rtype(r.choice([0, 0, 1, 2]))
            if t == want or req == 'anyarr' and not isinstance(t, str) and t[0] == 'arr':
                continue
            g.nodes = g.nstmts = 0
            sc = gen.Scope()
            sc.infn = 1
            try:
                e = g.expr(t, r.choice([0, 0, 1, 2]), sc)
            except Discard:
                continue
            s = e.s(99)
            if isinstance(e, (Lit, Bin, Un, Tern, FnLit)) and not s.startswith('('):
                s = '(' + s + ')'
            return s, tsrc(t)
        return '"s"', 'string'

    def typed(self, t):
        """A closed expression of type t."""
        g, r = self.g, self.r
        for _ in range(20):
            g.nodes = g.nstmts = 0
            sc = gen.Scope()
            sc.infn = 1
            try:
                e = g.expr(t, r.choice([0, 0, 1]), sc)
            except Discard:
                continue
            s = e.s(99)
            if len(s) > 1500:
                continue
            if isinstance(e, (Lit, Bin, Un, Tern, FnLit)) and not s.startswith('('):
                s = '(' + s + ')'
            return s
        return None

    def nearly(self):
        g, r = self.g, self.r
        for _ in range(50):
            t = g.fntype(2) if r.random() < .3 else g.rtype(r.choice([1, 2, 2]))
            u = g.near(t)
            if t != u and 'nothing' not in (t, u):
                a, b = self.typed(t), self.typed(u)
                if a and b:
                    break
        else:
            return None
        kind, text, extra = r.choice(NEAR)
        if 'fn hqo' in extra and gen.noret(t) == gen.noret(u):
            return None

        def fill(x):
            return re.sub(r'\b[TSVX]\b', lambda m: dict(T=tsrc(t), S=tsrc(u), V=a, X=b)[m.group()], x)
        if kind in 'ES' and r.random() < .5:
            # in a function of its own, inside or outside of a closure
            self.extra = fill(extra) + '\nfn hqz() {\n' + ('hq := ' if kind == 'E' and not re.match(r'hqa\(|V\.', text) else '') + fill(text) + '\n}\n'
            return 'near', (text + extra, tsrc(t), tsrc(u)), lambda: None, 0
        self.extra = fill(extra) + '\n'
        undo, d = (lambda: None), 0
        if kind == 'E':
            undo, d = self.place_expr(fill(text))
        elif kind == 'S':
            undo, d = self.place_stmt(fill(text))
        return 'near', (text + extra, tsrc(t), tsrc(u)), undo, d

    # ---- constructs of random size with one defect. Each returns (what, declarations, statements); with bad=False the same construct without the defect
    def pair(self):
        """(T, expression of T, expression of a type which is not T)."""
        g, r = self.g, self.r
        for _ in range(50):
            t = g.rtype(r.choice([0, 0, 1, 2]), (), r.random() < .5)
            u = g.near(t) if r.random() < .5 else g.rtype(r.choice([0, 1]), (), False)
            if t == u or 'nothing' in (t, u):
                continue
            a, b = self.typed(t), self.typed(u)
            if a and b and len(a) + len(b) < 1200:
                return t, a, b
        return 'int', '1', '"a"'

    def d_array(self, bad):
        t, a, b = self.pair()
        n = self.r.randint(2, 6)
        xs = [a] + [self.typed(t) or a for _ in range(n - 1)]
        if bad:
            xs[self.r.randrange(n)] = b
        x = '[' + ', '.join(xs) + ']'
        return 'array literal of %d %s' % (n, tsrc(t)), '', self.r.choice(['hv := %s', 'hv := [%s]', 'for hx in %s {\n}', 'hv := Hhg(%s)']) % x

    def d_call(self, bad):
        r = self.r
        kind = r.choice(['fn', 'dot', 'value', 'struct', 'enum', 'overload'])
        n = r.randint(1, {'value': 5, 'enum': 5}.get(kind, 6))
        ps = [self.pair() for _ in range(n)]
        args = [a for _, a, _ in ps]
        if bad:
            k = r.randrange(n)
            args[k] = ps[k][2]
            if kind == 'dot' and k == 0:
                args[0] = '(%s)' % args[0] if args[0][0] != '(' else args[0]
        types = [tsrc(t) for t, _, _ in ps]
        plist = ', '.join('p%d: %s' % (i, t) for i, t in enumerate(types))
        what = '%s with %d arguments (%s)' % (kind, n, ', '.join(types))
        if kind == 'struct':
            return what, 'struct hqs {\n' + ''.join('    p%d: %s\n' % (i, t) for i, t in enumerate(types)) + '}', 'hv := Hqs(%s)' % ', '.join(args)
        if kind == 'enum':
            return what, 'enum hqe {\n    Hqo()\n    Hqe(%s)\n}' % plist, 'hv := Hqe(%s)' % ', '.join(args)
        if kind == 'value':
            return what, '', 'hv := fn(%s) int = 1\nhv(%s)' % (plist, ', '.join(args))
        dec = 'fn hqa(%s) int = 1' % plist
        if kind == 'overload':
            # overloads with other numbers of arguments
            for m in range(0, 7):
                if m != n and r.random() < .4:
                    dec += '\nfn hqa(%s) int = 1' % ', '.join('p%d: %s' % (i, (types * 6)[i]) for i in range(m))
        if kind == 'dot':
            return what, dec, 'hv := %s.hqa(%s)' % (args[0] if re.match(r'[A-Za-z]\w*\(|\(', args[0]) else '(%s)' % args[0], ', '.join(args[1:]))
        return what, dec, 'hqa(%s)' % ', '.join(args)

    def d_match(self, bad):
        r = self.r
        n = r.randint(1, 6)
        gp = r.random() < .5
        cases = []
        for i in range(n):
            fs = []
            for j in range(r.choice([0, 1, 2, 3, 5])):
                fs.append('Q' if gp and r.random() < .4 else r.choice(['int', 'string', 'bool', '[]int']))
            cases.append(('Hq%d' % i, fs))
        if gp and not any('Q' in fs for _, fs in cases):
            cases[0] = (cases[0][0], ['Q'])
            if len(cases[0][1]) > 5:
                cases[0][1].pop()
        dec = 'enum hqe%s {\n%s}' % ('«Q»' if gp else '', ''.join('    %s(%s)\n' % (c, ', '.join('a%d: %s' % (j, t) for j, t in enumerate(fs))) for c, fs in cases))
        arms = [(c, ['v%d' % j for j in range(len(fs))], []) for c, fs in cases]
        r.shuffle(arms)
        ty = 'hqe«%s»' % r.choice(['int', 'string', '[]int']) if gp else 'hqe'
        what = 'match'
        if bad:
            k = r.randrange(n)
            c, vs, _ = arms[k]
            o = r.choice(['missing', 'repeated', 'foreign', 'count', 'dup', 'type', 'unknown', 'instead', 'scope'])
            if o == 'dup' and len(vs) < 2 or o in ('type',) and not vs or o == 'scope' and not vs:
                o = 'missing'
            what = 'match with %d cases: %s' % (n, o)
            foreign = r.choice([('Some', ['v0']), ('None', []), ('Ok', ['v0']), ('Err', ['v0']), ('Hha', ['v0']), ('Hhc', []), ('Hsome', ['v0']), ('Hnone', []), ('Empty', [])])
            if o == 'missing':
                del arms[k]
            elif o == 'repeated':
                arms.insert(r.randint(0, n), arms[k])
            elif o == 'foreign':
                arms.insert(r.randint(0, n), foreign + ([],))
            elif o == 'instead':
                arms[k] = foreign + ([],)
            elif o == 'unknown':
                arms.insert(r.randint(0, n), ('Hqnosuch', [], []))
            elif o == 'count':
                arms[k] = (c, vs[:-1] if vs and r.random() < .5 else vs + ['w'], [])
            elif o == 'dup':
                i, j = sorted(r.sample(range(len(vs)), 2))
                vs = list(vs)
                vs[j] = vs[i]
                arms[k] = (c, vs, [])
            elif o == 'scope':
                arms.append(None)
            else:
                j = r.randrange(len(vs))
                ft = dict(cases)[c][j]
                ft = ty[4:-1] if ft == 'Q' else ft
                arms[k] = (c, vs, ['v%d = %s' % (j, r.choice([x for y, x in [('int', '1'), ('string', '"a"'), ('bool', 'true'), ('[]int', '[1]'), ('', '["a"]'), ('', 'hhi')] if y != ft]))])
        tail = ''
        if arms and arms[-1] is None:
            arms.pop()
            tail = '    hhid(%s)\n' % r.choice(arms[r.choice([i for i, x in enumerate(arms) if x[1]])][1])
        body = ''.join('        case %s(%s):\n%s' % (c, ', '.join(vs), ''.join('            %s\n' % x for x in b)) for c, vs, b in arms)
        return what, dec + '\nfn hqm(e: %s) {\n    match e {\n%s    }\n%s}' % (ty, body, tail), ''

    def d_returns(self, bad):
        r = self.r
        t, a, b = self.pair()
        leaves = []

        def tree(d, ind):
            p = '    ' * ind
            if d == 0 or r.random() < .3:
                leaves.append(1)
                return ['%s@%d@' % (p, len(leaves) - 1)]
            if r.random() < .3:
                out = [p + 'match hz {']
                for c in r.sample(['Hha(x%d)' % d, 'Hhb(x%d, y%d)' % (d, d), 'Hhc()'], 3):
                    out += [p + '    case %s:' % c] + tree(d - 1, ind + 2)
                return out + [p + '}']
            out = []
            for q in range(r.choice([1, 1, 2, 3])):
                out += [p + ('if' if q == 0 else '} elseif') + ' hz2 == %d {' % q] + tree(d - 1, ind + 1)
            return out + [p + '} else {'] + tree(d - 1, ind + 1) + [p + '}']
        lines = tree(r.choice([1, 2, 2, 3]), 1)
        k = r.randrange(len(leaves)) if bad else -1
        what = 'returns on %d paths' % len(leaves)
        out = []
        for l in lines:
            m = re.match(r'( *)@(\d+)@$', l)
            if not m:
                out.append(l)
                continue
            ret = '%sreturn %s' % (m[1], a)
            if int(m[2]) != k:
                pre = r.choice([None, None, 'hhi(1)', 'if hz2 == 7 {\n%s    return %s\n%s}' % (m[1], a, m[1])])
                out += ([m[1] + pre] if pre else []) + [ret]
                continue
            o = r.choice(['nothing', 'statement', 'while', 'for', 'if', 'match', 'wrong', 'elseif', 'after'])
            what += ', one of them: ' + o
            p = m[1]
            out += {'nothing': [], 'statement': [p + 'hhi(1)'], 'while': [p + 'while hz2 == 1 {', '    ' + ret, p + '}'], 'for': [p + 'for hx in [1] {', '    ' + ret, p + '}'], 'if': [p + 'if hz2 == 1 {', '    ' + ret, p + '}'],
                    'match': [p + 'match hz {', p + '    case Hha(x):', '        ' + ret, p + '    case Hhb(x, y):', p + '    case Hhc():', '        ' + ret, p + '}'], 'wrong': [p + 'return %s' % b],
                    'elseif': [p + 'if hz2 == 1 {', '    ' + ret, p + '} elseif hz2 == 2 {', '    ' + ret, p + '}'], 'after': [p + 'if hz2 == 1 {', '    ' + ret, p + '} else {', '    ' + ret, p + '}', p + 'hhi(1)']}[o]
        if r.random() < .3:
            return what + ' in a closure', '', 'hv := fn(hz: hhe, hz2: int) %s {\n%s\n}' % (tsrc(t), '\n'.join(out))
        return what, 'fn hqr(hz: hhe, hz2: int) %s {\n%s\n}' % (tsrc(t), '\n'.join(out)), ''

    def d_operator(self, bad):
        r = self.r
        op = r.choice(ARITH + ['<', '<=', '>', '>=', '==', 'and', 'or'])
        ok = {'and': ['bool'], 'or': ['bool'], '==': ['int', 'bool']}.get(op, ['int'])
        if not bad:
            t = r.choice(ok)
            return 'operator', '', 'hv := (%s %s %s)' % (self.typed(t) or ('1' if t == 'int' else 'true'), op, {'int': '1', 'bool': 'true'}[t])
        for _ in range(50):
            t = self.g.rtype(r.choice([0, 0, 1]))
            if t in ok:
                continue
            a, b = self.typed(t), self.typed(t)
            if a and b:
                return 'operator %s on two %s' % (op, tsrc(t)), '', 'hv := (%s %s %s)' % (a, op, b)
        return 'operator', '', 'hv := ("a" %s "b")' % op

    def d_conditions(self, bad):
        r = self.r
        n = r.randint(1, 5)
        cs = [r.choice(['true', 'hhb(false)', '1 == 2', 'not hhb(true)']) for _ in range(n)]
        if bad:
            cs[r.randrange(n)] = self.wrong('bool')[0]
        s = ''.join('%s %s {\n    hhi(%d)\n' % ('if' if i == 0 else '} elseif', c, i) for i, c in enumerate(cs)) + '}' + (' else {\n}' if r.random() < .5 else '')
        return 'condition %d of an if' % n, '', s

    def d_scope(self, bad):
        """A variable used outside of its block."""
        r = self.r
        depth = r.randint(1, 4)
        lines, ind = [], 0
        for i in range(depth):
            o = r.choice(['if true {', 'while hhb(false) {', 'for hx%d in [1] {' % i, 'for hy%d in 0 .. 1 {' % i, 'match Hhc() {\n    case Hhb(hp%d, hq%d):\n    case Hha(hr%d):\n    case Hhc():' % (i, i, i), 'hf%d := fn(hpar%d: int) {' % (i, i), 'if hhb(false) {\n} elseif true {', 'if hhb(false) {\n} else {'])
            lines.append(o)
            lines.append('hs%d := %d' % (i, i))
        use = r.choice(['hhi(%s)', '%s = 3', 'hv := %s', 'hhi(hhi(%s))', 'hv := fn() int = %s', 'hv := [%s]', 'if %s == 1 {\n}'])
        k = r.randrange(depth)
        names = ['hs%d' % k] + re.findall(r'(?:for |fn\()(h[xyp]\w*)', lines[2 * k]) + re.findall(r'\b(hf\d|h[r]\d)\b', '\n'.join(lines[2 * k + 2:2 * k + 3]))
        name = 'hs%d' % k if not bad else r.choice([x for x in names if not x.startswith(('hf', 'hr'))])
        if bad:
            return 'scope', '', '\n'.join(lines) + '\n' + '}\n' * (depth - k) + use % name + '\n' + '}\n' * k
        return 'scope', '', '\n'.join(lines) + '\n' + (use % name if '= 3' not in use else 'hhi(%s)' % name) + '\n' + '}\n' * depth

    def poly(self, tps, d):
        """A random type over type parameters, with nested function types."""
        r = self.r
        k = r.random()
        if d == 0 or k < .35:
            return ('tp', r.choice(tps)) if r.random() < .7 else r.choice(['int', 'string', 'bool'])
        if k < .5:
            return ('arr', self.poly(tps, d - 1))
        if k < .8:
            return ('fn', tuple(self.poly(tps, d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))), self.poly(tps, d - 1))
        return r.choice([('en', 'hho', (self.poly(tps, d - 1),)), ('st', 'hhg', (self.poly(tps, d - 1),)), ('en', 'option', (self.poly(tps, d - 1),))])

    def value(self, t, n=0):
        """A closed expression of a type made by poly."""
        if isinstance(t, str):
            return {'int': '1', 'string': '"a"', 'bool': 'true', 'bytes': 'Bytes(1)'}[t]
        if t[0] == 'arr':
            return '[%s]' % self.value(t[1], n)
        if t[0] == 'fn':
            return 'fn(%s) %s { return %s }' % (', '.join('q%d_%d: %s' % (n, i, tsrc(x)) for i, x in enumerate(t[1])), tsrc(t[2]), self.value(t[2], n + 1))
        return '%s(%s)' % ({'hho': 'Hsome', 'hhg': 'Hhg', 'option': 'Some'}[t[1]], self.value(t[2][0], n))

    def near2(self, t):
        r = self.r
        if isinstance(t, str) or r.random() < .1:
            return r.choice([x for x in ('int', 'string', 'bool', ('arr', 'int'), ('fn', (), 'int'), ('fn', ('int',), 'int'), ('en', 'hho', ('int',))) if x != t])
        if t[0] == 'arr':
            return ('arr', self.near2(t[1]))
        if t[0] == 'fn':
            k = r.randrange(4)
            if k == 0 or not t[1]:
                return ('fn', t[1], self.near2(t[2]))
            if k == 1:
                return ('fn', t[1][1:] if r.random() < .5 else t[1][:-1], t[2])
            i = r.randrange(len(t[1]))
            return ('fn', t[1][:i] + (self.near2(t[1][i]),) + t[1][i + 1:], t[2])
        return (t[0], t[1], (self.near2(t[2][0]),))

    def d_generic(self, bad):
        """A generic function, struct or enum case whose type parameters are bound by plain parameters; another argument does not fit."""
        r = self.r
        tps = r.choice([['T'], ['A', 'B'], ['K', 'V', 'W']])
        m = {p: self.poly(['-'], r.choice([0, 1, 2])) for p in tps}
        m = {p: subst(t, {'-': r.choice(['int', 'string', 'bool'])}) for p, t in m.items()}
        kind = r.choice(['fn', 'fn', 'dot', 'struct', 'enum', 'field', 'assign', 'explicit'])
        pt = [('tp', p) for p in tps]
        n = r.randint(1, 6 - len(tps)) if kind != 'enum' else r.randint(1, 5 - len(tps))
        odd = [self.poly(tps, r.choice([1, 2, 2, 3])) for _ in range(n)]
        ps = [(t, False) for t in pt] + [(t, True) for t in odd]
        r.shuffle(ps)
        k = r.choice([i for i, (_, o) in enumerate(ps) if o])
        real = [subst(t, m) for t, _ in ps]
        args = [self.value(t) for t in real]
        if bad:
            u = self.near2(real[k])
            args[k] = self.value(u)
        tp, plist = ', '.join(tps), ', '.join('p%d: %s' % (i, tsrc(t)) for i, (t, _) in enumerate(ps))
        targs = '«%s»' % ', '.join(tsrc(m[p]) for p in tps)
        what = 'generic %s (%s) with %s, argument %d' % (kind, plist, targs, k)
        if kind in ('struct', 'field', 'assign'):
            dec = 'struct hqs«%s» {\n%s}' % (tp, ''.join('    p%d: %s\n' % (i, tsrc(t)) for i, (t, _) in enumerate(ps)))
            if kind == 'struct':
                return what, dec, 'hv := Hqs%s(%s)' % (targs if r.random() < .3 else '', ', '.join(args))
            good = [self.value(t) for t in real]
            if kind == 'assign':
                return what, dec, 'hv := Hqs(%s)\nhv.p%d = %s' % (', '.join(good), k, args[k])
            u = self.near2(real[k]) if bad else real[k]
            return what, dec + '\nfn hqw(a: %s) {\n}' % tsrc(u), 'hv := Hqs(%s)\nhqw(hv.p%d)' % (', '.join(good), k)
        if kind == 'enum':
            return what, 'enum hqe«%s» {\n    Hqo()\n    Hqe(%s)\n}' % (tp, plist), 'hv := Hqe%s(%s)' % (targs if r.random() < .3 else '', ', '.join(args))
        dec = 'fn hqa«%s»(%s) int = 1' % (tp, plist)
        if kind == 'dot':
            return what, dec, 'hx := %s\nhv := hx.hqa(%s)' % (args[0], ', '.join(args[1:]))
        return what, dec, 'hv := hqa%s(%s)' % (targs if kind == 'explicit' else '', ', '.join(args))

    DYN = ['d_generic', 'd_generic', 'd_array', 'd_call', 'd_call', 'd_match', 'd_match', 'd_returns', 'd_returns', 'd_operator', 'd_conditions', 'd_scope']

    def dynamic(self):
        k = self.r.choice(self.DYN)
        what, dec, st = getattr(self, k)(True)
        self.extra = dec + '\n'
        undo, d = (lambda: None), 0
        if st:
            if self.r.random() < .5:
                undo, d = self.place_stmt(st.rstrip('\n'))
            else:
                self.extra += 'fn hqz() {\n%s\n}\n' % st
        return what, (k, what), undo, d

    def place_expr(self, x):
        """Puts the bad expression x at a random expression of the program. Returns an undo function."""
        r = self.r
        holder, key, depth = r.choice(self.exprs)
        old = getref(holder, key)
        s = old.s(0)
        k = r.randrange(6)
        plain = not s.startswith('fn') and '\n' not in s
        if k == 0 and plain:
            t = '(hhb(true) ? (%s) : hhseq(%s, (%s)))' % (s, x, s)
        elif k == 1 and plain:
            t = '[(%s), hhseq(%s, (%s))][0]' % (s, x, s)
        elif k == 2:
            t = 'hhseq([%s], %s)' % (x, s)
        elif k == 3:
            t = 'hhseq(fn() int { hq := %s return 1 }, %s)' % (x, s) if '\n' not in x else 'hhseq(%s, %s)' % (x, s)
        elif k == 4:
            t = 'hhid(hhseq(hhseq(1, %s), %s))' % (x, s)
        else:
            t = 'hhseq(%s, %s)' % (x, s)
        setref(holder, key, Text(t, old.t))
        return lambda: setref(holder, key, old), depth

    def place_stmt(self, text):
        b, depth = self.r.choice(self.blocks)
        i = self.r.randint(0, max(0, len(b) - 1))
        st = TStmt('hhi(1)\n' + text + '\nhhi(2)')
        b.insert(i, st)
        return lambda: b.remove(st), depth

    def structural(self):
        """Breaks an existing construct. Returns (what, undo, depth) or None."""
        r = self.r
        x, depth, _ = r.choice(self.nodes)
        if isinstance(x, Match):
            k = r.randrange(5)
            old = list(x.arms)
            i = r.randrange(len(old))

            def undo():
                x.arms[:] = old
            if k == 0:
                del x.arms[i]
                return 'case removed', undo, depth
            if k == 1:
                x.arms.insert(r.randint(0, len(old)), old[i])
                return 'case repeated', undo, depth
            if k == 2:
                ci, names, b = old[i]
                x.arms[i] = (ci, list(names) + ['hzz'], b)
                return 'case variable added', undo, depth
            if k == 3:
                ci, names, b = old[i]
                if not names:
                    return None
                x.arms[i] = (ci, list(names)[:-1], b)
                return 'case variable removed', undo, depth
            ci, names, b = old[i]
            if len(names) < 2:
                return None
            x.arms[i] = (ci, [names[0]] * len(names), b)
            return 'case variables repeated', undo, depth
        if isinstance(x, Call) and not isinstance(x.f, Native) and sum(f.name == x.f.name for f in self.funcs) == 1:
            old = list(x.args)

            def undo2():
                x.args[:] = old
            if r.random() < .5 and old:
                del x.args[r.randrange(len(old))]
                return 'argument removed', undo2, depth
            x.args.insert(r.randint(0, len(old)), Lit(1))
            return 'argument added', undo2, depth
        if isinstance(x, (New, Case)):
            old = list(x.args)

            def undo3():
                x.args[:] = old
            if r.random() < .5 and old:
                del x.args[r.randrange(len(old))]
                return 'constructor argument removed', undo3, depth
            x.args.append(Lit(1))
            return 'constructor argument added', undo3, depth
        if isinstance(x, Var):
            n = x.n
            x.n = 'hunk' + n

            def undo4():
                x.n = n
            return 'unknown variable', undo4, depth
        if isinstance(x, Fld):
            n2 = x.n
            x.n = 'hunk' + n2

            def undo5():
                x.n = n2
            return 'unknown field', undo5, depth
        if isinstance(x, (FnLit, Func)) and not x.isexpr and x.ret != 'nothing':
            b = x.body
            # remove a return which ends a path
            while b and isinstance(b[-1], (If, Match)):
                s = b[-1]
                if isinstance(s, If):
                    opts = [a[1] for a in s.arms] + ([s.els] if s.els is not None else [])
                    b = r.choice(opts)
                else:
                    b = r.choice(s.arms)[2]
            if b and isinstance(b[-1], Return):
                rt = b.pop()
                if b and isinstance(b[-1], (If, Match, Return)):
                    b.append(TStmt('hhi(1)'))
                    bb = b

                    def undo6():
                        bb[-1] = rt
                else:
                    bb = b

                    def undo6():
                        bb.append(rt)
                return 'return removed', undo6, depth
        if isinstance(x, Return) and x.x is not None:
            o = x.x
            x.x = None

            def undo7():
                x.x = o
            # only valid before a closing brace
            return None if x.x is not None else ('return without value', undo7, depth)
        if isinstance(x, If) and x.arms:
            i = r.randrange(len(x.arms))
            a = x.arms[i]
            x.arms[i] = (Text(r.choice(['1', '"a"', '[true]', 'hhi(1)', 'hhe', 'hhb'])), a[1])

            def undo8():
                x.arms[i] = a
            return 'condition is not boolean', undo8, depth
        return None

    def mutate(self):
        r = self.r
        self.extra = ''
        k = r.random() * 1.9
        if k > 1.35:
            what, key, undo, d = self.dynamic()
            return what, ('Y',) + key, undo, d
        if k > 1:
            m = self.nearly()
            if m:
                return 'context %s: wanted %s, got %s' % m[1], ('N', m[1][0], m[1][1], m[1][2]), m[2], m[3]
            k = r.random()
        if k < .3:
            req, tpl = r.choice(EXPR)
            x, t = self.wrong(req)
            e = tpl.replace('X', x)
            undo, d = self.place_expr(e)
            return 'context %s with %s' % (tpl, t), ('E', tpl, t), undo, d
        if k < .45:
            req, tpl = r.choice(STMT)
            x, t = self.wrong(req)
            undo, d = self.place_stmt(tpl.replace('X', x))
            return 'context %s with %s' % (tpl.replace('\n', '; '), t), ('S', tpl, t), undo, d
        if k < .6:
            e = r.choice(BADX)
            undo, d = self.place_expr(e)
            return e, ('X', e), undo, d
        if k < .72:
            e = r.choice(BADS)
            undo, d = self.place_stmt(e)
            return e.replace('\n', '; '), ('T', e), undo, d
        if k < .8:
            e = r.choice(BADD)
            self.extra = e + '\n'
            return e.replace('\n', '; '), ('D', e), lambda: None, 0
        for _ in range(20):
            m = self.structural()
            if m:
                return m[0], ('M', m[0]), m[1], m[2]
        return None


def source(prog, rng, extra):
    src = prog.source()
    parts = [HELPERS, extra, src] if rng.random() < .5 else [src, extra, HELPERS]
    return '\n'.join(parts)


def verdict(c):
    if c.timeout:
        return 'compiler did not finish (%s)' % c.timeout
    if core.crashed(c):
        return 'compiler crashed: %s' % c.out[-600:].decode('utf-8', 'replace')
    if c.exe:
        return 'an executable was written (status %s)' % c.rc
    if c.rc != 1:
        return 'status is %s' % c.rc
    if not core.error_lines(c.out):
        return 'no error is reported: %r' % c.out[-300:]
    return None


def job(ctx, item):
    label, prof, seed = item
    rng = core.rng_for('C09', label, seed)
    prog = gen.make(rng, prof, 20000)
    comp = ctx['comp']
    d = os.path.join(ctx['scratch'], 'm-%s-%s' % (label, seed))
    res = dict(label=label, seed=seed, muts=[], bad=[])
    base = source(prog, rng, '')
    c = comp.compile_src(base, d, 'base')
    res['base'] = c.rc == 0 and c.exe is not None
    if res['base']:
        m = Mutator(rng, prog)
        for i in range(ctx['per']):
            mu = m.mutate()
            if mu is None:
                continue
            what, key, undo, depth = mu
            src = source(prog, rng, m.extra)
            undo()
            c = comp.compile_src(src, d, 'm%d' % i, cpu=30)
            v = verdict(c)
            res['muts'].append((key, depth, c.out[-160:].decode('utf-8', 'replace') if i == 0 else '', b'syntax error' in c.out))
            if v:
                res['bad'].append((what, v, src, c.out[-3000:]))
            shutil.rmtree(os.path.join(d, 'o'), ignore_errors=True)
    else:
        res['src'] = base
        res['out'] = c.out[-1500:]
    shutil.rmtree(d, ignore_errors=True)
    return res


def sweepjob(ctx, item):
    """Every fixed rule once, in a small program."""
    kind, i, text = item
    rng = core.rng_for('C09', 'sweep', kind, i)
    if kind == 'X':
        body = rng.choice(['    hq := %s\n', '    hhseq(1, %s)\n', '    if true {\n        hq := %s\n    }\n', '    f := fn() {\n        hq := %s\n    }\n', '    hq := [hhseq(%s, 1)]\n', '    hq := true ? 1 : hhseq(%s, 1)\n']) % text
        src = HELPERS + 'fn main() {\n' + body + '}\n'
    elif kind == 'T':
        src = HELPERS + 'fn main() {\n' + TStmt(text).src(1) + '}\n'
    else:
        src = HELPERS + text + '\nfn main() {\n}\n'
    d = os.path.join(ctx['scratch'], 's-%s-%d' % (kind, i))
    c = ctx['comp'].compile_src(src, d, 'm', cpu=30)
    v = verdict(c)
    shutil.rmtree(d, ignore_errors=True)
    return dict(item=item, v=v, src=src, out=c.out[-3000:])


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch, per=chk.n(18, 40))
    P = gen.Prof
    small = dict(tests=2, funcs=4, gfuncs=2, stmts=4)
    profs = [('mixed', P(**small)), ('closures', P(w_closure=4, **small)), ('generic', P(generics=.8, **dict(small, gfuncs=5))), ('nested', P(nest=3, w_if=3, w_loop=2, w_match=3, **small)), ('types', P(w_struct=3, w_enum=3, w_array=3, **small))]
    items = []
    for l, p in profs:
        items += [(l, p, '%d.%d' % (chk.seed, i)) for i in range(chk.n(40, 400))]
    sweep = [('X', i, t) for i, t in enumerate(BADX)] + [('T', i, t) for i, t in enumerate(BADS)] + [('D', i, t) for i, t in enumerate(BADD)]
    rules = set()
    for r in core.pmap(sweepjob, ctx, sweep, chunksize=8):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw('rule %s' % r['item'][2])
        rules.add(r['item'][2])
        if r['v']:
            chk.violation('%s: %s' % (r['item'][2].replace('\n', '; '), r['v']), {'program.clara': r['src'], 'compiler.txt': r['out']})
    depths = {}
    rejected = 0
    for r in core.pmap(job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        if not r['base']:
            rejected += 1
            chk.sample(dict(valid_program_rejected=r['out'].decode('utf-8', 'replace')))
            continue
        chk.note('base_programs')
        for key, depth, out, syn in r['muts']:
            chk.note('mutants_rejected_by_the_parser', int(syn))
            if syn and os.environ.get('VERIF_DEBUG'):
                print(key)
            chk.saw('%s %s %s' % (r['label'], r['seed'], key))
            chk.note('mutants')
            rules.add(key[1])
            depths[min(depth, 9)] = depths.get(min(depth, 9), 0) + 1
            if out:
                chk.sample(dict(mutation=key, compiler=out))
        for what, v, src, out in r['bad']:
            chk.violation('%s %s: %s: %s' % (r['label'], r['seed'], what, v), {'program.clara': src, 'compiler.txt': out})
    chk.coverage['rules_exercised'] = len(rules)
    chk.coverage['expression_depth_of_error'] = {str(k): v for k, v in sorted(depths.items())}
    chk.note('valid_programs_rejected', rejected)
    if not chk.violations and chk.coverage.get('mutants', 0) < 200:
        chk.inconclusive.append('only %d mutants' % chk.coverage.get('mutants', 0))
