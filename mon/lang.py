"""Reference model of the language: an AST which prints itself as Clara source and evaluates itself.

The evaluator is the oracle for compiled programs. It is written from the documented semantics (63-bit integers,
left to right evaluation, capture by value, mutable references) and shares nothing with the compiler."""

MASK = (1 << 63) - 1
MIN, MAX = -(1 << 62), (1 << 62) - 1


def wrap(i):
    i &= MASK
    return i - (1 << 63) if i >> 62 else i


class Stop(Exception):
    """The reference stopped the program (panic)."""


class Discard(Exception):
    """The program does something unspecified, or is too long: not a valid case."""


class Ret(Exception):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Interp:
    def __init__(self, fuel=60000):
        self.trace = []
        self.fuel = fuel
        self.depth = 0
        self.allocs = 0

    def tick(self, n=1):
        self.fuel -= n
        if self.fuel < 0:
            raise Discard('fuel')

    def emit(self, b):
        self.trace.append(b)


class Obj:
    __slots__ = ('f', 't')

    def __init__(self, t, f):
        self.t, self.f = t, f


class En:
    __slots__ = ('case', 'f')

    def __init__(self, case, f):
        self.case, self.f = case, f


class Arr:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Clo:
    __slots__ = ('params', 'body', 'env', 'isexpr')

    def __init__(self, params, body, env, isexpr):
        self.params, self.body, self.env, self.isexpr = params, body, env, isexpr


class Env:
    __slots__ = ('v', 'up', 'it')

    def __init__(self, it, up=None):
        self.v, self.up, self.it = {}, up, it

    def cell(self, n):
        e = self
        while e is not None:
            c = e.v.get(n)
            if c is not None:
                return c
            e = e.up
        raise KeyError(n)

    def decl(self, n, v):
        self.v[n] = [v]

    def flat(self):
        chain = []
        e = self
        while e is not None:
            chain.append(e.v)
            e = e.up
        out = {}
        for d in reversed(chain):
            for k, c in d.items():
                out[k] = [c[0]]
        n = Env(self.it)
        n.v = out
        return n


def call(it, f, args):
    it.tick()
    it.depth += 1
    if it.depth > 400:
        raise Discard('depth')
    try:
        if isinstance(f, Clo):
            e = Env(it, f.env)
            for (n, _), a in zip(f.params, args):
                e.decl(n, a)
            if f.isexpr:
                return f.body.ev(e)
            return run_body(f.body, e)
        return f.call(it, args)
    finally:
        it.depth -= 1


def run_body(stmts, e):
    try:
        run_block(stmts, e)
    except Ret as r:
        return r.v
    return None


def run_block(stmts, e):
    for s in stmts:
        s.ex(e)


# --------------------------------------------------------------------------------------------------- types

def tsrc(t):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == 'arr':
        return '[]' + tsrc(t[1])
    if k in ('st', 'en'):
        return t[1] + ('«' + ', '.join(tsrc(x) for x in t[2]) + '»' if t[2] else '')
    if k == 'fn':
        return 'fn(' + ', '.join(tsrc(x) for x in t[1]) + ') ' + tsrc(t[2])
    if k == 'tp':
        return t[1]
    raise ValueError(t)


def subst(t, m):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == 'arr':
        return ('arr', subst(t[1], m))
    if k in ('st', 'en'):
        return (k, t[1], tuple(subst(x, m) for x in t[2]))
    if k == 'fn':
        return ('fn', tuple(subst(x, m) for x in t[1]), subst(t[2], m))
    if k == 'tp':
        return m.get(t[1], t)


def has_tp(t):
    if isinstance(t, str):
        return False
    if t[0] == 'tp':
        return True
    if t[0] == 'arr':
        return has_tp(t[1])
    if t[0] in ('st', 'en'):
        return any(has_tp(x) for x in t[2])
    return any(has_tp(x) for x in t[1]) or has_tp(t[2])


class StructDef:
    def __init__(self, name, tps, fields):
        self.name, self.tps, self.fields = name, tps, fields   # fields: [(name, type)]

    @property
    def cons(self):
        return self.name[0].upper() + self.name[1:]

    def src(self):
        return 'struct %s%s {\n%s}\n' % (self.name, '«' + ', '.join(self.tps) + '»' if self.tps else '',
                                        ''.join('    %s: %s\n' % (n, tsrc(t)) for n, t in self.fields))


class EnumDef:
    def __init__(self, name, tps, cases):
        self.name, self.tps, self.cases = name, tps, cases     # cases: [(name, [(fname, type)])]

    def src(self):
        return 'enum %s%s {\n%s}\n' % (self.name, '«' + ', '.join(self.tps) + '»' if self.tps else '',
                                      ''.join('    %s(%s)\n' % (n, ', '.join('%s: %s' % (a, tsrc(t)) for a, t in fs)) for n, fs in self.cases))


class Func:
    def __init__(self, name, params, ret, body, isexpr=False, tps=(), pure=False):
        self.name, self.params, self.ret, self.body, self.isexpr, self.tps, self.pure = name, params, ret, body, isexpr, list(tps), pure
        self.first_class = True

    def call(self, it, args):
        e = Env(it)
        for (n, _), a in zip(self.params, args):
            e.decl(n, a)
        if self.isexpr:
            return self.body.ev(e)
        return run_body(self.body, e)

    def head(self):
        r = '' if self.ret == 'nothing' else ' ' + tsrc(self.ret)
        return 'fn %s%s(%s)%s' % (self.name, '«' + ', '.join(self.tps) + '»' if self.tps else '',
                                  ', '.join('%s: %s' % (n, tsrc(t)) for n, t in self.params), r)

    def src(self):
        if self.isexpr:
            return self.head() + ' = ' + self.body.s(0) + '\n'
        return self.head() + ' {\n' + block(self.body, 1) + '}\n'


class Native(Func):
    """A function whose Clara source is given as text and whose model is a Python function (it, args)."""

    def __init__(self, name, params, ret, text, fn, tps=(), pure=False):
        Func.__init__(self, name, params, ret, None, tps=tps, pure=pure)
        self.text, self.fn = text, fn

    def call(self, it, args):
        return self.fn(it, args)

    def src(self):
        return self.text


def block(stmts, ind):
    return ''.join(s.src(ind) for s in stmts)


# --------------------------------------------------------------------------------------------------- expressions

class E:
    __slots__ = ('t',)


def paren(s, need):
    return '(' + s + ')' if need else s


class Lit(E):
    __slots__ = ('v', 'hexa')

    def __init__(self, v, t='int', hexa=False):
        self.v, self.t, self.hexa = v, t, hexa

    def ev(self, e):
        return self.v

    def s(self, p):
        if self.t == 'int':
            a = ('0x%x' if self.hexa else '%d') % abs(self.v)
            return paren('-' + a, p > 0) if self.v < 0 else a
        if self.t == 'bool':
            return 'true' if self.v else 'false'
        return strlit(self.v)


def strlit(b):
    out = ['"']
    for ch in b.decode('utf-8', 'surrogateescape'):
        out.append({'\n': '\\n', '\r': '\\r', '\\': '\\\\', '"': '\\"'}.get(ch, ch))
    out.append('"')
    return ''.join(out)


class Var(E):
    __slots__ = ('n',)

    def __init__(self, n, t):
        self.n, self.t = n, t

    def ev(self, e):
        return e.cell(self.n)[0]

    def s(self, p):
        return self.n


PREC = {'*': 10, '/': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 6, '&': 5, '^': 4, '|': 3, 'and': 2, 'or': 1}


def tdiv(a, b):
    if b == 0:
        raise Discard('div0')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, a, b):
    if op == '+': return wrap(a + b)
    if op == '-': return wrap(a - b)
    if op == '*': return wrap(a * b)
    if op == '/': return wrap(tdiv(a, b))
    if op == '<<':
        if not 0 <= b <= 62: raise Discard('shift')
        return wrap(a << b)
    if op == '>>':
        if not 0 <= b <= 62: raise Discard('shift')
        return a >> b
    if op == '&': return a & b
    if op == '|': return a | b
    if op == '^': return a ^ b
    if op == '<': return a < b
    if op == '<=': return a <= b
    if op == '>': return a > b
    if op == '>=': return a >= b
    if op == '==': return a == b
    if op == 'and': return a and b
    if op == 'or': return a or b
    raise ValueError(op)


class Bin(E):
    __slots__ = ('op', 'l', 'r', 'red')

    def __init__(self, op, l, r, t, red=False):
        self.op, self.l, self.r, self.t, self.red = op, l, r, t, red

    def ev(self, e):
        e.it.tick()
        a = self.l.ev(e)
        b = self.r.ev(e)
        return binop(self.op, a, b)

    def s(self, p):
        q = PREC[self.op]
        # Comparisons do not chain: always parenthesise nested ones. All others are left associative
        lp = 8 if q == 7 else 7 if q == 6 else q
        return paren('%s %s %s' % (self.l.s(lp), self.op, self.r.s(max(q + 1, lp))), p > q or self.red)


class Un(E):
    __slots__ = ('op', 'x')

    def __init__(self, op, x, t):
        self.op, self.x, self.t = op, x, t

    def ev(self, e):
        e.it.tick()
        v = self.x.ev(e)
        if self.op == '-': return wrap(-v)
        if self.op == '~': return ~v
        return not v

    def s(self, p):
        if self.op == '-':
            return paren('-' + self.x.s(99), p > 0)
        if self.op == '~':
            return paren('~' + self.x.s(99), p > 11)
        return paren('not ' + self.x.s(99), p > 11)


class Tern(E):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b, t):
        self.c, self.a, self.b, self.t = c, a, b, t

    def ev(self, e):
        e.it.tick()
        return self.a.ev(e) if self.c.ev(e) else self.b.ev(e)

    def s(self, p):
        return paren('%s ? %s : %s' % (self.c.s(1), self.a.s(0), self.b.s(0)), p > 0)


class Call(E):
    """Call of a named function. dot: written x.f(y)."""
    __slots__ = ('f', 'args', 'dot', 'targs')

    def __init__(self, f, args, t, dot=False, targs=None):
        self.f, self.args, self.t, self.dot, self.targs = f, args, t, dot, targs

    def ev(self, e):
        args = [a.ev(e) for a in self.args]
        return call(e.it, self.f, args)

    def s(self, p):
        ta = '«' + ', '.join(tsrc(x) for x in self.targs) + '»' if self.targs else ''
        if self.dot and self.args:
            return '%s.%s%s(%s)' % (self.args[0].s(99), self.f.name, ta, ', '.join(a.s(0) for a in self.args[1:]))
        return '%s%s(%s)' % (self.f.name, ta, ', '.join(a.s(0) for a in self.args))


class CallV(E):
    """Call of a function value."""
    __slots__ = ('f', 'args')

    def __init__(self, f, args, t):
        self.f, self.args, self.t = f, args, t

    def ev(self, e):
        f = self.f.ev(e)
        args = [a.ev(e) for a in self.args]
        return call(e.it, f, args)

    def s(self, p):
        f = self.f.s(99)
        if isinstance(self.f, FnLit) and not f.startswith('('):
            f = '(%s)' % f
        return '%s(%s)' % (f, ', '.join(a.s(0) for a in self.args))


class FnRef(E):
    __slots__ = ('f',)

    def __init__(self, f, t):
        self.f, self.t = f, t

    def ev(self, e):
        return self.f

    def s(self, p):
        return self.f.name


class FnLit(E):
    __slots__ = ('params', 'ret', 'body', 'isexpr')

    def __init__(self, params, ret, body, isexpr):
        self.params, self.ret, self.body, self.isexpr = params, ret, body, isexpr
        self.t = ('fn', tuple(t for _, t in params), ret)

    def ev(self, e):
        e.it.tick()
        e.it.allocs += 2
        return Clo(self.params, self.body, e.flat(), self.isexpr)

    def s(self, p):
        r = '' if self.ret == 'nothing' else ' ' + tsrc(self.ret)
        h = 'fn(%s)%s' % (', '.join('%s: %s' % (n, tsrc(t)) for n, t in self.params), r)
        if self.isexpr:
            return paren(h + ' = ' + self.body.s(0), p > 0)
        return paren(h + ' {\n' + block(self.body, 2) + '    }', p > 0)


class New(E):
    """Struct construction."""
    __slots__ = ('d', 'args', 'targs', 'dot')

    def __init__(self, d, args, t, targs=None, dot=False):
        self.d, self.args, self.t, self.targs, self.dot = d, args, t, targs, dot

    def ev(self, e):
        e.it.tick()
        v = [a.ev(e) for a in self.args]
        e.it.allocs += 1
        return Obj(self.d, {n: x for (n, _), x in zip(self.d.fields, v)})

    def s(self, p):
        ta = '«' + ', '.join(tsrc(x) for x in self.targs) + '»' if self.targs else ''
        if self.dot and self.args:
            return '%s.%s%s(%s)' % (self.args[0].s(99), self.d.cons, ta, ', '.join(a.s(0) for a in self.args[1:]))
        return '%s%s(%s)' % (self.d.cons, ta, ', '.join(a.s(0) for a in self.args))


class Case(E):
    """Enum construction."""
    __slots__ = ('d', 'i', 'args', 'targs')

    def __init__(self, d, i, args, t, targs=None):
        self.d, self.i, self.args, self.t, self.targs = d, i, args, t, targs

    def ev(self, e):
        e.it.tick()
        v = [a.ev(e) for a in self.args]
        e.it.allocs += 1
        return En(self.i, v)

    def s(self, p):
        ta = '«' + ', '.join(tsrc(x) for x in self.targs) + '»' if self.targs else ''
        return '%s%s(%s)' % (self.d.cases[self.i][0], ta, ', '.join(a.s(0) for a in self.args))


class Fld(E):
    __slots__ = ('x', 'n')

    def __init__(self, x, n, t):
        self.x, self.n, self.t = x, n, t

    def ev(self, e):
        e.it.tick()
        return self.x.ev(e).f[self.n]

    def s(self, p):
        return '%s.%s' % (self.x.s(99), self.n)


class Len(E):
    """Length of an array or string."""
    __slots__ = ('x',)

    def __init__(self, x):
        self.x, self.t = x, 'int'

    def ev(self, e):
        v = self.x.ev(e)
        return len(v.v) if isinstance(v, Arr) else len(v)

    def s(self, p):
        return '%s.length' % self.x.s(99)


class Idx(E):
    __slots__ = ('x', 'i')

    def __init__(self, x, i, t):
        self.x, self.i, self.t = x, i, t

    def ev(self, e):
        e.it.tick()
        a = self.x.ev(e)
        i = self.i.ev(e)
        if not 0 <= i < len(a.v):
            raise Stop(b'index out of bounds! index = %d, array.length = %d' % (i, len(a.v)))
        return a.v[i]

    def s(self, p):
        return '%s[%s]' % (self.x.s(99), self.i.s(0))


class ArrLit(E):
    __slots__ = ('xs',)

    def __init__(self, xs, t):
        self.xs, self.t = xs, t

    def ev(self, e):
        e.it.tick()
        v = [x.ev(e) for x in self.xs]
        e.it.allocs += 2
        return Arr(v)

    def s(self, p):
        return '[' + ', '.join(x.s(0) for x in self.xs) + ']'


class Grp(E):
    """Redundant parentheses."""
    __slots__ = ('x',)

    def __init__(self, x):
        self.x, self.t = x, x.t

    def ev(self, e):
        return self.x.ev(e)

    def s(self, p):
        return '(' + self.x.s(0) + ')'


# --------------------------------------------------------------------------------------------------- statements

def pad(i):
    return '    ' * i


class Das:
    def __init__(self, n, x):
        self.n, self.x = n, x

    def ex(self, e):
        e.it.tick()
        e.decl(self.n, self.x.ev(e))

    def src(self, i):
        return '%s%s := %s\n' % (pad(i), self.n, self.x.s(0))


class As:
    def __init__(self, l, x):
        self.l, self.x = l, x

    def ex(self, e):
        e.it.tick()
        v = self.x.ev(e)
        l = self.l
        if isinstance(l, Var):
            e.cell(l.n)[0] = v
        elif isinstance(l, Fld):
            l.x.ev(e).f[l.n] = v
        else:
            a = l.x.ev(e)
            i = l.i.ev(e)
            if not 0 <= i < len(a.v):
                raise Stop(b'index out of bounds! index = %d, array.length = %d' % (i, len(a.v)))
            a.v[i] = v

    def src(self, i):
        return '%s%s = %s\n' % (pad(i), self.l.s(0), self.x.s(0))


class Ex:
    def __init__(self, x):
        self.x = x

    def ex(self, e):
        e.it.tick()
        self.x.ev(e)

    def src(self, i):
        return '%s%s\n' % (pad(i), self.x.s(0))


class If:
    def __init__(self, arms, els):
        self.arms, self.els = arms, els

    def ex(self, e):
        for c, b in self.arms:
            e.it.tick()
            if c.ev(e):
                run_block(b, Env(e.it, e))
                return
        if self.els is not None:
            run_block(self.els, Env(e.it, e))

    def src(self, i):
        out = ''
        for k, (c, b) in enumerate(self.arms):
            out += '%s%s %s {\n%s%s}' % (pad(i) if k == 0 else ' ', 'if' if k == 0 else 'elseif', c.s(0), block(b, i + 1), pad(i))
        if self.els is not None:
            out += ' else {\n%s%s}' % (block(self.els, i + 1), pad(i))
        return out + '\n'


class While:
    def __init__(self, c, b):
        self.c, self.b = c, b

    def ex(self, e):
        while True:
            e.it.tick()
            if not self.c.ev(e):
                return
            run_block(self.b, Env(e.it, e))

    def src(self, i):
        return '%swhile %s {\n%s%s}\n' % (pad(i), self.c.s(0), block(self.b, i + 1), pad(i))


class ForR:
    """for n in a .. b (the end is a pure, loop invariant expression). down: b is the literal 0."""

    def __init__(self, n, a, b, body, down=False):
        self.n, self.a, self.b, self.body, self.down = n, a, b, body, down

    def ex(self, e):
        e = Env(e.it, e)
        a, b = self.a.ev(e), self.b.ev(e)
        for x in (range(a - 1, -1, -1) if self.down else range(a, b)):
            e.it.tick()
            e.decl(self.n, x)
            run_block(self.body, Env(e.it, e))

    def src(self, i):
        return '%sfor %s in %s .. %s {\n%s%s}\n' % (pad(i), self.n, self.a.s(0), self.b.s(0), block(self.body, i + 1), pad(i))


class ForA:
    def __init__(self, n, a, body):
        self.n, self.a, self.body = n, a, body

    def ex(self, e):
        a = self.a.ev(e)
        i = 0
        while i < len(a.v):
            e.it.tick()
            b = Env(e.it, e)
            b.decl(self.n, a.v[i])
            run_block(self.body, Env(e.it, b))
            i += 1

    def src(self, i):
        return '%sfor %s in %s {\n%s%s}\n' % (pad(i), self.n, self.a.s(0), block(self.body, i + 1), pad(i))


class Match:
    def __init__(self, x, d, arms):
        self.x, self.d, self.arms = x, d, arms      # arms: [(case index, [names], stmts)]

    def ex(self, e):
        e.it.tick()
        v = self.x.ev(e)
        for ci, names, b in self.arms:
            if ci == v.case:
                n = Env(e.it, e)
                for nm, x in zip(names, v.f):
                    n.decl(nm, x)
                run_block(b, n)
                return
        raise AssertionError('inexhaustive')

    def src(self, i):
        out = '%smatch %s {\n' % (pad(i), self.x.s(0))
        for ci, names, b in self.arms:
            out += '%scase %s(%s):\n%s' % (pad(i + 1), self.d.cases[ci][0], ', '.join(names), block(b, i + 2))
        return out + pad(i) + '}\n'


class Return:
    def __init__(self, x=None):
        self.x = x

    def ex(self, e):
        e.it.tick()
        raise Ret(None if self.x is None else self.x.ev(e))

    def src(self, i):
        return '%sreturn%s\n' % (pad(i), '' if self.x is None else ' ' + self.x.s(0))


class Raw:
    """A statement given as text with a Python model."""

    def __init__(self, text, fn):
        self.text, self.fn = text, fn

    def ex(self, e):
        self.fn(e)

    def src(self, i):
        return pad(i) + self.text + '\n'
