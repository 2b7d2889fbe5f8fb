"""Random generator of well-typed, terminating programs over the AST of lang.py."""
from .lang import *

INTS = [0, 1, -1, 2, 3, -2, 5, 7, -7, 8, 10, 63, 64, 127, 128, -128, 255, 256, 1023, 1024, 1025, 65535, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1,
        (1 << 32) - 1, 1 << 32, (1 << 53) + 1, 1 << 61, (1 << 61) - 1, MAX, MAX - 1, MIN, MIN + 1]
STRS = [b'', b'a', b'ab', b'hello', b'x y', b'%d %s%%', 'né·«»'.encode(), b'line\nbreak', b'q"uote\\', b'0123456789abcdef']


class Prof:
    """Feature weights of a generated program."""

    def __init__(self, **kw):
        self.structs = 3; self.enums = 2; self.generics = 0.3; self.funcs = 6; self.tests = 6
        self.depth = 4; self.stmts = 5; self.nest = 3; self.nodes = 30; self.maxstmts = 40
        self.w_closure = 1.0; self.w_struct = 1.0; self.w_enum = 1.0; self.w_array = 1.0; self.w_string = 1.0; self.w_call = 1.5
        self.w_arith = 3.0; self.w_trace = 0.6; self.w_loop = 1.0; self.w_match = 1.0; self.w_tern = 0.7; self.w_if = 1.0; self.w_bytes = .08
        self.overloads = 0.3; self.nparams = 6; self.lib = 0.3; self.gfuncs = 3; self.rec = .15
        self.__dict__.update(kw)


class Scope:
    """Variables visible at a point of the program."""

    def __init__(self, up=None):
        self.vars = list(up.vars) if up else []      # (name, type, assignable)
        self.here = set()
        self.pure = up.pure if up else False
        self.infn = up.infn if up else 0

    def add(self, n, t, assignable=True):
        self.vars = [v for v in self.vars if v[0] != n] + [(n, t, assignable)]
        self.here.add(n)

    def child(self):
        return Scope(self)


def trace_native():
    def f(it, a):
        it.emit(b't %d %d' % (a[0], a[1]))
        return a[1]
    return Native('tr', [('i', 'int'), ('v', 'int')], 'int',
                  'fn tr(i: int, v: int) int {\n    printf("t %lld %lld\\n", i, v)\n    return v\n}\n', f)


def traceb_native():
    def f(it, a):
        it.emit(b'b %d %s' % (a[0], b'true' if a[1] else b'false'))
        return a[1]
    return Native('trb', [('i', 'int'), ('v', 'bool')], 'bool',
                  'fn trb(i: int, v: bool) bool {\n    printf("b %lld %s\\n", i, v ? "true" : "false")\n    return v\n}\n', f)


def traces_native():
    def f(it, a):
        it.emit(b's %d %s' % (a[0], a[1]))
        return a[1]
    return Native('trs', [('i', 'int'), ('v', 'string')], 'string',
                  'fn trs(i: int, v: string) string {\n    printf("s %lld %s\\n", i, v)\n    return v\n}\n', f)


def wi_native():
    return Native('wi', [('i', 'int'), ('n', 'int')], 'int',
                  'fn wi(i: int, n: int) int {\n    r := i - ((i / n) * n)\n    return r < 0 ? r + n : r\n}\n',
                  lambda it, a: a[0] % a[1], pure=True)


def _bmk(it, a):
    it.allocs += 1
    it.tick(a[0] & 7)
    return Arr([(a[1] >> i) & 255 for i in range(a[0] & 7)])


def _bset(it, a):
    if a[0].v:
        a[0].v[a[1] % len(a[0].v)] = a[2] & 255


BMK = Native('bmk', [('n', 'int'), ('x', 'int')], 'bytes',
             'fn bmk(n: int, x: int) bytes {\n    b := Bytes(n & 7)\n    for i in 0 .. b.length() {\n        b.set(i, (x >> i) & 255)\n    }\n    return b\n}\n', _bmk, pure=True)
BGET = Native('bget', [('b', 'bytes'), ('i', 'int')], 'int',
              'fn bget(b: bytes, i: int) int = b.length() == 0 ? -1 : b.get(wi(i, b.length())) & 255\n', lambda it, a: a[0].v[a[1] % len(a[0].v)] if a[0].v else -1, pure=True)
BSET = Native('bset', [('b', 'bytes'), ('i', 'int'), ('v', 'int')], 'nothing',
              'fn bset(b: bytes, i: int, v: int) {\n    if b.length() > 0 {\n        b.set(wi(i, b.length()), v & 255)\n    }\n}\n', _bset)


# Library functions which may be used as building blocks
OPTION = EnumDef('option', ['T'], [('Some', [('t', ('tp', 'T'))]), ('None', [])])
LIST = EnumDef('list', ['T'], [('Element', [('val', ('tp', 'T')), ('rest', ('en', 'list', (('tp', 'T'),)))]), ('Empty', [])])
PAIR = StructDef('pair', ['T', 'R'], [('first', ('tp', 'T')), ('second', ('tp', 'R'))])
RESULT = EnumDef('result', ['T', 'E'], [('Ok', [('val', ('tp', 'T'))]), ('Err', [('val', ('tp', 'E'))])])
for d in (OPTION, LIST, PAIR, RESULT):
    d.lib = True


def _append(it, a):
    it.allocs += 1
    n = len(a[0]) + len(a[1])
    if n > 3000:
        raise Discard('string')
    it.tick(n // 16)
    return a[0] + a[1]


APPEND = Native('append', [('a', 'string'), ('b', 'string')], 'string', '', _append, pure=True)
ITOS = Native('toString', [('i', 'int')], 'string', '', lambda it, a: b'%d' % a[0], pure=True)


def _array(it, a):
    if not 0 <= a[0] < 2000:
        raise Discard('array')
    it.tick(a[0])
    it.allocs += 3
    return Arr([a[1]] * a[0])


ARRAY = Native('array', [('n', 'int'), ('d', ('tp', 'T'))], ('arr', ('tp', 'T')), '', _array, tps=['T'], pure=True)


def noret(t):
    """Overloads which differ in the result of a function type only are not allowed."""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'fn':
        return ('fn', tuple(noret(x) for x in t[1]))
    if t[0] == 'arr':
        return ('arr', noret(t[1]))
    return (t[0], t[1], tuple(noret(x) for x in t[2])) if len(t) > 2 else t


class Gen:
    def __init__(self, rng, prof, prefix=''):
        self.r, self.p, self.px = rng, prof, prefix
        self.structs, self.enums, self.funcs = [], [], []
        self.nid = 0
        self.tid = 0
        self.tr, self.trb, self.trs, self.wi = trace_native(), traceb_native(), traces_native(), wi_native()
        self.shows = {}
        self.genfuncs = []
        self.total = self.nodes = self.nstmts = 0
        self.reserved = {}

    # ------------------------------------------------------------------ helpers
    def name(self, k='v'):
        self.nid += 1
        return '%s%s%d' % (self.px, k, self.nid)

    def chance(self, p):
        return self.r.random() < p

    def weighted(self, opts):
        opts = [(w, f) for w, f in opts if w > 0]
        x = self.r.random() * sum(w for w, _ in opts)
        for w, f in opts:
            x -= w
            if x < 0:
                return f
        return opts[-1][1]

    def tagid(self):
        self.tid += 1
        return self.tid

    # ------------------------------------------------------------------ declarations
    def basic(self):
        return 'bytes' if self.chance(self.p.w_bytes) else self.r.choice(['int', 'int', 'int', 'bool', 'string'])

    def rtype(self, d=2, tps=(), fns=True):
        """A random type."""
        o = [(4, lambda: self.basic())]
        if tps:
            o.append((4, lambda: ('tp', self.r.choice(tps))))
        if d > 0:
            o.append((self.p.w_array, lambda: ('arr', self.rtype(d - 1, tps, fns))))
            if self.structs:
                o.append((self.p.w_struct, lambda: self.inst(self.r.choice(self.structs), d, tps)))
            if self.enums:
                o.append((self.p.w_enum, lambda: self.inst(self.r.choice(self.enums), d, tps)))
            if self.p.lib:
                o.append((self.p.lib, lambda: self.inst(self.r.choice([OPTION, PAIR, OPTION, LIST, RESULT]), d, tps)))
            if fns:
                o.append((self.p.w_closure, lambda: self.fntype(d, tps)))
        return self.weighted(o)()

    def fntype(self, d, tps=()):
        n = self.r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        deep = d > 1 and self.chance(.2)    # functions which take or return functions
        return ('fn', tuple(self.rtype(d - 1, tps, deep) for _ in range(n)), 'nothing' if self.chance(.12) else self.rtype(d - 1, tps, deep))

    def near(self, t):
        """A type which differs from t in one place."""
        if isinstance(t, tuple) and not self.chance(.15):
            if t[0] == 'arr':
                return ('arr', self.near(t[1]))
            if t[0] == 'fn' and self.chance(.6):
                if self.chance(.5) and len(t[1]) < 5:
                    return ('fn', t[1] + (self.basic(),), t[2])
                if self.chance(.3) and t[1]:
                    return ('fn', t[1][1:], t[2])
                return ('fn', t[1], 'nothing' if t[2] != 'nothing' and self.chance(.4) else self.near(t[2]))
            a = t[2] if t[0] in ('st', 'en') else t[1]
            if a and t[0] in ('st', 'en', 'fn'):
                a = list(a)
                i = self.r.randrange(len(a))
                a[i] = self.near(a[i])
                return (t[0], t[1], tuple(a)) if t[0] != 'fn' else ('fn', tuple(a), t[2])
        while True:
            n = self.rtype(1, (), False)
            if n != t:
                return n

    def inst(self, df, d, tps=()):
        k = 'st' if isinstance(df, StructDef) else 'en'
        return (k, df.name, tuple(self.rtype(d - 1, tps, False) for _ in df.tps))

    def defn(self, t):
        for d in self.structs + self.enums:
            if d.name == t[1]:
                return d
        return {'option': OPTION, 'list': LIST, 'pair': PAIR, 'result': RESULT}[t[1]]

    def gen_types(self):
        for i in range(self.p.structs):
            tps = []
            if self.chance(self.p.generics):
                tps = self.r.choice([['T'], ['K', 'V'], ['A', 'B', 'C']])
            nf = self.r.choice([1, 2, 2, 3, 3, 4, 5, 6])
            nm = self.name('st')
            fs = []
            for j in range(nf):
                t = ('tp', tps[j]) if j < len(tps) else self.rtype(2, tps)
                fs.append(('f%d' % j if self.chance(.5) else self.name('q'), t))
            if tps:
                self.r.shuffle(fs)
            if self.chance(.2) and nf < 6 and not tps:
                fs.append(('nx', ('en', 'option', (('st', nm, ()),))))
            self.structs.append(StructDef(nm, tps, fs))
        for i in range(self.p.enums):
            tps = []
            if self.chance(self.p.generics):
                tps = self.r.choice([['T'], ['K', 'V']])
            nm = self.name('en')
            cases = []
            for j in range(self.r.choice([1, 2, 2, 3, 4, 6])):
                nf = self.r.choice([0, 1, 1, 2, 3, 4, 5])
                fs = [(self.name('c'), self.rtype(1, tps)) for _ in range(nf)]
                cases.append((self.name('Case'), fs))
            if tps:
                cases.append((self.name('Case'), [(self.name('c'), ('tp', t)) for t in tps]))
                self.r.shuffle(cases)
            if self.chance(.4) :
                cases.append((self.name('Rec'), [(self.name('c'), self.rtype(1, tps)), (self.name('c'), ('en', nm, tuple(('tp', t) for t in tps)))]))
                if len(cases) == 1:
                    cases.append((self.name('Case'), []))
            self.enums.append(EnumDef(nm, tps, cases))

    # ------------------------------------------------------------------ expressions
    def lit(self, t):
        r = self.r
        if t == 'int':
            c = r.random()
            if c < .6:
                v = r.choice(INTS) if self.chance(.4) else r.randint(-9, 9)
            elif c < .8:
                v = r.randint(-100000, 100000)
            else:
                v = wrap(r.getrandbits(63))
            return Lit(v, 'int', self.chance(.2))
        if t == 'bool':
            return Lit(self.chance(.5), 'bool')
        return Lit(r.choice(STRS), 'string')

    def usable(self, sc, t):
        return [v for v in sc.vars if v[1] == t]

    def expr(self, t, d, sc):
        """An expression of type t. May have effects unless sc.pure."""
        r, p = self.r, self.p
        self.nodes += 1
        self.total += 1
        if self.total > 60000:
            raise RecursionError('the program explodes')
        if self.nodes > p.nodes:
            d = min(d, 0)
        o = []
        vs = self.usable(sc, t)
        if vs:
            o.append((3.0 if d > 0 else 30.0, lambda: self.var(vs)))
        if d <= 0:
            if t in ('int', 'bool', 'string'):
                o.append((2, lambda: self.lit(t)))
            elif not vs:
                o.append((1, lambda: self.construct(t, d, sc)))
            e = self.weighted(o)()
            return e
        # Projections of variables
        pj = self.projections(t, sc)
        if pj:
            o.append((2.0, lambda: r.choice(pj)()))
        if t in ('int', 'bool', 'string'):
            o.append((.8, lambda: self.lit(t)))
        else:
            o.append((1.0, lambda: self.construct(t, d, sc)))
        if t == 'int':
            o.append((p.w_arith, lambda: self.arith(d, sc)))
            if not sc.pure:
                o.append((p.w_trace, lambda: Call(self.tr, [Lit(self.tagid()), self.expr('int', d - 1, sc)], 'int')))
            ar = [v for v in sc.vars if not isinstance(v[1], str) and v[1][0] == 'arr' or v[1] == 'string']
            if ar:
                o.append((.5, lambda: Len(self.var(ar))))
            bs = [v for v in sc.vars if v[1] == 'bytes']
            if bs:
                o.append((1.5, lambda: Call(BGET, [self.var(bs), self.expr('int', d - 1, sc)], 'int', dot=self.chance(.4))))
        if t == 'bool':
            o.append((p.w_arith, lambda: self.boolean(d, sc)))
            if not sc.pure:
                o.append((p.w_trace, lambda: Call(self.trb, [Lit(self.tagid()), self.expr('bool', d - 1, sc)], 'bool')))
        if t == 'string':
            o.append((p.w_string, lambda: Call(APPEND, [self.expr('string', d - 1, sc), self.expr('string', d - 1, sc)], 'string', dot=self.chance(.6))))
            o.append((p.w_string * .6, lambda: Call(ITOS, [self.expr('int', d - 1, sc)], 'string', dot=self.chance(.6))))
            if not sc.pure:
                o.append((p.w_trace * .5, lambda: Call(self.trs, [Lit(self.tagid()), self.expr('string', d - 1, sc)], 'string')))
        o.append((p.w_tern, lambda: self.ternary(t, d, sc)))
        fs = [f for f in self.funcs if f.ret == t and (f.pure or not sc.pure)]
        if fs:
            o.append((p.w_call * 1.5, lambda: self.callf(r.choice(fs), d, sc)))
        gs = [g for g in self.genfuncs if not sc.pure and self.unify(g.ret, t, {}) is not None]
        if gs:
            o.append((p.w_call * p.generics * 2, lambda: self.callg(r.choice(gs), t, d, sc)))
        if not sc.pure:
            fv = [v for v in sc.vars if not isinstance(v[1], str) and v[1][0] == 'fn' and v[1][2] == t]
            if fv:
                o.append((p.w_closure * 2, lambda: self.callv(fv, d, sc)))
        if not sc.pure and t != 'nothing':
            o.append((p.w_closure * .25, lambda: self.callx(t, d, sc)))
        if self.chance(.03):
            return Grp(self.weighted(o)())
        return self.weighted(o)()

    def var(self, vs):
        v = self.r.choice(vs[-6:] if self.chance(.6) else vs)
        return Var(v[0], v[1])

    def projections(self, t, sc):
        """Field reads and array element reads of visible variables which have type t."""
        out = []
        for n, vt, _ in sc.vars:
            if isinstance(vt, str):
                continue
            if vt[0] == 'arr' and vt[1] == t:
                out.append(lambda n=n, vt=vt: self.index(Var(n, vt), t, sc))
            elif vt[0] == 'st':
                df = self.defn(vt)
                m = dict(zip(df.tps, vt[2]))
                for fn, ft in df.fields:
                    ft = subst(ft, m)
                    if ft == t:
                        out.append(lambda n=n, vt=vt, fn=fn: Fld(Var(n, vt), fn, t))
                    elif not isinstance(ft, str) and ft[0] == 'arr' and ft[1] == t:
                        out.append(lambda n=n, vt=vt, fn=fn, ft=ft: self.index(Fld(Var(n, vt), fn, ft), t, sc))
                    elif not isinstance(ft, str) and ft[0] == 'fn' and ft[2] == t and not sc.pure:
                        out.append(lambda n=n, vt=vt, fn=fn, ft=ft: CallV(Fld(Var(n, vt), fn, ft), [self.expr(x, 1, sc) for x in ft[1]], t))
                    elif not isinstance(ft, str) and ft[0] == 'st':
                        df2 = self.defn(ft)
                        m2 = dict(zip(df2.tps, ft[2]))
                        for gn, gt in df2.fields:
                            if subst(gt, m2) == t:
                                out.append(lambda n=n, vt=vt, fn=fn, ft=ft, gn=gn: Fld(Fld(Var(n, vt), fn, ft), gn, t))
        return out

    def index(self, a, t, sc):
        """a is cheap & pure"""
        i = self.expr('int', self.r.choice([0, 0, 1, 2]), sc)
        i = Call(self.wi, [i, Len(a)], 'int', dot=self.chance(.3) and not isinstance(i, Lit))
        return Idx(self.through(a, sc), i, t)

    def through(self, a, sc, p=.15):
        """a, sometimes passed through a function which traces that it was evaluated."""
        if sc.pure or has_tp(a.t) or not self.chance(p):
            return a
        key = ('pass', a.t)
        if key not in self.shows:
            n = '%spass%d' % (self.px, len(self.shows))
            self.shows[key] = Native(n, [('k', 'int'), ('x', a.t)], a.t,
                                     'fn %s(k: int, x: %s) %s {\n    printf("~%%lld\\n", k)\n    return x\n}\n' % (n, tsrc(a.t), tsrc(a.t)),
                                     lambda it, x: (it.emit(b'~%d' % x[0]), x[1])[1])
        return Call(self.shows[key], [Lit(self.tagid()), a], a.t)

    def purely(self, sc):
        s = sc.child()
        s.pure = True
        return s

    def arith(self, d, sc):
        r = self.r
        op = r.choice(['+', '-', '*', '+', '-', '/', '&', '|', '^', '<<', '>>', 'neg', '~'])
        if op == 'neg':
            return Un('-', self.expr('int', d - 1, sc), 'int') if self.chance(.8) else Un('-', self.nonlit(sc, d), 'int')
        if op == '~':
            return Un('~', self.expr('int', d - 1, sc), 'int')
        l = self.expr('int', d - 1, sc)
        if op == '/':
            return Bin('/', l, self.divisor(d, sc), 'int')
        if op in ('<<', '>>'):
            if self.chance(.6):
                return Bin(op, l, Lit(r.choice([0, 1, 2, 3, 8, 31, 32, 33, 61, 62, r.randint(0, 62)])), 'int')
            return Bin(op, l, Bin('&', self.expr('int', d - 1, sc), Lit(31), 'int'), 'int')
        return Bin(op, l, self.expr('int', d - 1, sc), 'int', red=self.chance(.05))

    def nonlit(self, sc, d):
        return self.expr('int', d - 1, sc)

    def divisor(self, d, sc):
        c = self.r.random()
        if c < .5:
            v = 0
            while v == 0:
                v = self.lit('int').v
            return Lit(v, 'int', self.chance(.2))
        if c < .8:
            return Bin('+', Bin('&', self.expr('int', d - 1, sc), Lit(self.r.choice([1, 7, 255])), 'int'), Lit(1), 'int')
        x = self.expr('int', min(d - 1, 2), self.purely(sc))
        return Tern(Bin('==', x, Lit(0), 'bool'), Lit(self.r.choice([1, -1, 3])), x, 'int')

    def boolean(self, d, sc):
        r = self.r
        c = r.random()
        if c < .5:
            return Bin(r.choice(['<', '<=', '>', '>=', '==']), self.expr('int', d - 1, sc), self.expr('int', d - 1, sc), 'bool')
        if c < .62:
            return Bin('==', self.expr('bool', d - 1, sc), self.expr('bool', d - 1, sc), 'bool')
        if c < .75:
            return Un('not', self.expr('bool', d - 1, sc), 'bool')
        ps = self.purely(sc)     # and/or: whether the right operand is evaluated is unspecified
        return Bin(r.choice(['and', 'or']), self.expr('bool', d - 1, sc if self.chance(.3) else ps), self.expr('bool', d - 1, ps), 'bool')

    def ternary(self, t, d, sc):
        return Tern(self.expr('bool', d - 1, sc), self.expr(t, d - 1, sc), self.expr(t, d - 1, sc), t)

    def args(self, params, d, sc):
        k = max(0, d - 1 if len(params) < 4 else d - 2)
        return [self.expr(t, k if self.chance(.8) else d - 1, sc) for _, t in params]

    def callf(self, f, d, sc):
        a = self.args(f.params, d, sc)
        if getattr(f, 'rec', False):
            a[0] = Lit(self.r.randint(0, 6)) if self.chance(.6) else Bin('&', a[0], Lit(3), 'int')
        return Call(f, a, f.ret, dot=self.candot(a) and self.chance(.4))

    def candot(self, a):
        # A dot selection on a struct (field of the same name) or a function value reads differently: keep to plain values
        return bool(a) and not (isinstance(a[0], (FnLit, FnRef)) or (not isinstance(a[0].t, str) and a[0].t[0] == 'fn'))

    def unify(self, gt, t, m):
        """Type parameters of gt such that it equals t."""
        if isinstance(gt, str):
            return m if gt == t else None
        if gt[0] == 'tp':
            if gt[1] in m:
                return m if m[gt[1]] == t else None
            if t == 'nothing':
                return None
            m = dict(m); m[gt[1]] = t
            return m
        if isinstance(t, str) or gt[0] != t[0]:
            return None
        if gt[0] == 'arr':
            return self.unify(gt[1], t[1], m)
        if gt[0] in ('st', 'en'):
            if gt[1] != t[1]:
                return None
            for x, y in zip(gt[2], t[2]):
                m = self.unify(x, y, m)
                if m is None:
                    return None
            return m
        if len(gt[1]) != len(t[1]):
            return None
        for x, y in zip(gt[1] + (gt[2],), t[1] + (t[2],)):
            m = self.unify(x, y, m)
            if m is None:
                return None
        return m

    def callg(self, g, t, d, sc):
        m = self.unify(g.ret, t, {})
        for tp in g.tps:
            if tp not in m:
                m[tp] = self.rtype(1, (), False)
        ps = [(n, subst(pt, m)) for n, pt in g.params]
        a = self.args(ps, d, sc)
        explicit = self.chance(.35) or any(isinstance(x, FnRef) for x in a)
        return Call(g, a, t, dot=self.candot(a) and self.chance(.4), targs=[m[x] for x in g.tps] if explicit else None)

    def callv(self, fv, d, sc):
        v = self.r.choice(fv)
        return CallV(Var(v[0], v[1]), [self.expr(x, max(0, d - 1), sc) for x in v[1][1]], v[1][2])

    def callx(self, t, d, sc):
        """A call of the function which another expression yields: f(a)(b), x.f(a)(b), a[i](b)."""
        ts = [f.ret for f in self.funcs if isinstance(f.ret, tuple) and f.ret[0] == 'fn' and f.ret[2] == t]
        ts += [y for v in sc.vars if isinstance(v[1], tuple) and v[1][0] in ('arr', 'fn') for y in [v[1][1] if v[1][0] == 'arr' else v[1][2]] if isinstance(y, tuple) and y and y[0] == 'fn' and y[2] == t]
        ft = self.r.choice(ts) if ts and self.chance(.8) else ('fn', tuple(self.rtype(1, (), False) for _ in range(self.r.choice([0, 1, 1, 2, 5]))), t)
        if self.chance(.2):
            n = self.r.choice([1, 2, 3])
            f = Idx(ArrLit([self.expr(ft, max(0, d - 2), sc) for _ in range(n)], ('arr', ft)), Lit(self.r.randrange(n)), ft)
            return CallV(f, [self.expr(x, max(0, d - 1), sc) for x in ft[1]], t)
        for _ in range(4):
            f = self.expr(ft, max(0, d - 1), sc)
            if isinstance(f, (Call, CallV, Idx, Fld)):      # what the compiler accepts as the function of a call
                break
        else:
            return self.construct(t, max(0, d - 1), sc)
        return CallV(f, [self.expr(x, max(0, d - 1), sc) for x in ft[1]], t)

    def construct(self, t, d, sc):
        r = self.r
        if t in ('int', 'bool', 'string'):
            return self.lit(t)
        if t == 'bytes':
            return Call(BMK, [Lit(r.randint(0, 7)) if d <= 0 or self.chance(.6) else self.expr('int', d - 1, sc), self.expr('int', d - 1, sc)], 'bytes')
        k = t[0]
        if k == 'arr':
            if d > 0 and self.chance(.4):
                return Call(ARRAY, [Lit(r.randint(1, 7)), self.expr(t[1], d - 1, sc)], t, targs=None)
            n = r.choice([1, 1, 2, 3, 4]) if d > 0 else 1
            return ArrLit([self.expr(t[1], d - 1, sc) for _ in range(n)], t)
        if k == 'st':
            df = self.defn(t)
            m = dict(zip(df.tps, t[2]))
            a = [self.expr(subst(ft, m), d - 1, sc) for _, ft in df.fields]
            ta = list(t[2]) if t[2] and (self.chance(.3) or any(isinstance(x, FnRef) for x in a) or not self.infers(df.tps, df.fields)) else None
            return New(df, a, t, ta, dot=self.candot(a) and self.chance(.1))
        if k == 'en':
            df = self.defn(t)
            m = dict(zip(df.tps, t[2]))
            cs = list(range(len(df.cases)))
            if d <= 0:   # avoid recursion
                cs = [c for c in cs if not any(self.mentions(ft, df.name) for _, ft in df.cases[c][1])]
                cs.sort(key=lambda c: len(df.cases[c][1]))
                cs = cs[:2]
            c = r.choice(cs)
            a = [self.expr(subst(ft, m), d - 1, sc) for _, ft in df.cases[c][1]]
            ta = list(t[2]) if t[2] and (self.chance(.3) or any(isinstance(x, FnRef) for x in a) or not self.infers(df.tps, df.cases[c][1])) else None
            return Case(df, c, a, t, ta)
        if k == 'fn':
            fs = [f for f in self.funcs if f.first_class and ('fn', tuple(x for _, x in f.params), f.ret) == t and len(f.params) <= 5]
            if fs and (self.chance(.4) or sc.pure):
                return FnRef(r.choice(fs), t)
            return self.fnlit(t, max(d, 0), sc)
        if k == 'tp':
            raise Discard('type parameter')
        raise ValueError(t)

    def infers(self, tps, fields):
        """All type parameters occur as the whole type of a field (so that they can be inferred)."""
        return set(tps) <= {ft[1] for _, ft in fields if not isinstance(ft, str) and ft[0] == 'tp'}

    def mentions(self, t, name):
        if isinstance(t, str) or t[0] == 'tp':
            return False
        if t[0] in ('st', 'en'):
            return t[1] == name or any(self.mentions(x, name) for x in t[2])
        if t[0] == 'arr':
            return self.mentions(t[1], name)
        return False

    def fnlit(self, t, d, sc):
        ps = []
        s = sc.child()
        s.pure = False
        s.infn += 1
        for x in t[1]:
            n = self.name('p')
            if self.chance(.1) and sc.vars:
                n = self.r.choice(sc.vars)[0]     # shadows an outer variable
                if any(n == q for q, _ in ps):
                    n = self.name('p')
            ps.append((n, x))
            s.add(n, x)
        # captured variables are limited to 6: keep a small random subset visible
        outer = [v for v in s.vars if v[0] not in s.here]
        need = [v for v in outer if self.is_tp(v[1])]
        rest = [v for v in outer if v not in need]
        self.r.shuffle(rest)
        keep = need[:5] + rest[:max(0, 5 - len(need))]
        s.vars = [v for v in s.vars if v in keep or v[0] in s.here]
        if t[2] != 'nothing' and (d <= 0 or s.infn > 2 or self.chance(.5)):
            return FnLit(ps, t[2], self.expr(t[2], d, s), True)
        if t[2] == 'nothing' and (d <= 0 or s.infn > 2):
            iv = self.usable(s, 'int')
            return FnLit(ps, t[2], [Ex(Call(self.tr, [Lit(self.tagid()), self.var(iv) if iv else self.lit('int')], 'int'))], False)
        body = self.stmts(s, max(1, min(d, 2)), t[2], self.r.choice([1, 2, 3]), top=True)
        return FnLit(ps, t[2], body, False)

    def is_tp(self, t):
        return not isinstance(t, str) and t[0] == 'tp'

    # ------------------------------------------------------------------ statements
    def stmts(self, sc, depth, ret, n, top=False, must=True):
        """A block. If top, it ends with a return when the function returns a value."""
        out = []
        for _ in range(n):
            out.extend(self.stmt(sc, depth, ret))
        if top:
            if ret != 'nothing':
                out.extend(self.final(sc, depth, ret))
            elif self.chance(.1):
                out.append(Return())
            elif depth > 0 and self.chance(.4):
                # ends in a choice, some or all of whose blocks return
                m = self.match(sc, depth, ret, final=True) if self.chance(.3) else None
                if m:
                    out.extend(m)
                else:
                    def arm():
                        b = self.stmts(sc.child(), depth - 1, ret, self.r.choice([1, 1, 2]))
                        return b + [Return()] if self.chance(.85) else b
                    arms = [(self.expr('bool', 2, sc), arm()) for _ in range(self.r.choice([1, 2, 2, 3]))]
                    out.append(If(arms, arm() if self.chance(.4) else None))
        return out

    def final(self, sc, depth, ret):
        c = self.r.random()
        if c < .15 and depth > 0:
            a, b = sc.child(), sc.child()
            return [If([(self.expr('bool', 2, sc), self.stmts(a, depth - 1, ret, 1, top=True))], self.stmts(b, depth - 1, ret, 1, top=True))]
        if c < .3 and depth > 0:
            m = self.match(sc, depth, ret, final=True)
            if m:
                return m
        return [Return(self.expr(ret, self.p.depth - 1, sc))]

    def stmt(self, sc, depth, ret):
        p = self.p
        if sc.infn == 0:
            self.nodes = 0
        self.nstmts += 1
        if self.nstmts > p.maxstmts:
            depth = 0
        o = [(2.5, lambda: self.decl(sc)), (2, lambda: self.assign(sc)), (1.2, lambda: self.eff(sc))]
        if depth > 0:
            o.append((p.w_if, lambda: self.iff(sc, depth, ret)))
            o.append((p.w_loop * .7, lambda: self.while_(sc, depth, ret)))
            o.append((p.w_loop * .7, lambda: self.for_range(sc, depth, ret)))
            o.append((p.w_loop * .7, lambda: self.for_array(sc, depth, ret)))
            o.append((p.w_match, lambda: self.match(sc, depth, ret) or []))
        return self.weighted(o)()

    def decl(self, sc, t=None):
        t = t or self.rtype(2, self.tps_of(sc))
        if has_tp(t) and self.is_tp(t) and not self.usable(sc, t):
            t = 'int'
        n = self.name()
        if self.chance(.12):
            # shadow a variable of an outer block
            c = [v[0] for v in sc.vars if v[0] not in sc.here and v[2]]
            if c:
                n = self.r.choice(c)
        x = self.expr(t, self.r.choice([1, self.p.depth - 1, self.p.depth]), sc)
        sc.add(n, t)
        return [Das(n, x)]

    def tps_of(self, sc):
        return sorted({v[1][1] for v in sc.vars if self.is_tp(v[1])})

    def lvalues(self, sc):
        out = []
        for n, t, a in sc.vars:
            if a:
                out.append(Var(n, t))
            if isinstance(t, str):
                continue
            if t[0] == 'st':
                df = self.defn(t)
                m = dict(zip(df.tps, t[2]))
                for fn, ft in df.fields:
                    if fn != 'nx' or self.chance(.5):
                        out.append(Fld(Var(n, t), fn, subst(ft, m)))
            elif t[0] == 'arr':
                out.append(Var(n, t))
        return out

    def assign(self, sc):
        ls = [l for l in self.lvalues(sc)]
        if not ls:
            return self.decl(sc)
        l = self.r.choice(ls)
        if isinstance(l, Var) and not isinstance(l.t, str) and l.t[0] == 'arr' and (self.chance(.7) or not any(v[0] == l.n and v[2] for v in sc.vars)):
            l = self.index(l, l.t[1], sc)
            if not isinstance(l.t, str) and l.t[0] == 'st' and self.chance(.4):
                df = self.defn(l.t)
                fn, ft = self.r.choice(df.fields)
                l = Fld(l, fn, subst(ft, dict(zip(df.tps, l.t[2]))))
        elif isinstance(l, Fld) and not isinstance(l.t, str) and l.t[0] == 'arr' and self.chance(.5):
            l = self.index(l, l.t[1], sc)
        if isinstance(l, Fld):
            l = Fld(self.through(l.x, sc, .25), l.n, l.t)
        return [As(l, self.expr(l.t, self.r.choice([1, self.p.depth - 1, self.p.depth]), sc))]

    def eff(self, sc):
        bs = self.usable(sc, 'bytes')
        if bs and self.chance(.35):
            return [Ex(Call(BSET, [self.through(self.var(bs), sc), self.expr('int', 2, sc), self.expr('int', 2, sc)], 'nothing'))]
        c = self.r.random()
        if c < .45:
            return [Ex(Call(self.tr, [Lit(self.tagid()), self.expr('int', self.p.depth, sc)], 'int'))]
        if c < .6:
            return [Ex(Call(self.trb, [Lit(self.tagid()), self.expr('bool', self.p.depth, sc)], 'bool'))]
        if c < .75:
            return [Ex(Call(self.trs, [Lit(self.tagid()), self.expr('string', self.p.depth - 1, sc)], 'string'))]
        fv = [v for v in sc.vars if not isinstance(v[1], str) and v[1][0] == 'fn']
        if fv and self.chance(.5):
            return [Ex(self.callv(fv, 2, sc))]
        if self.funcs:
            f = self.r.choice(self.funcs)
            x = self.callf(f, 2, sc)
            x.dot = x.dot and isinstance(x.args[0], (Var, Call))
            if x.s(0)[0] in '([-':       # would continue the previous statement
                x.dot = False
            return [Ex(x)]
        return self.decl(sc)

    def maybe_return(self, sc, ret, out):
        if self.chance(.12):
            out.append(Return(None if ret == 'nothing' else self.expr(ret, 2, sc)))
        return out

    def body(self, sc, depth, ret, n=None):
        return self.maybe_return(sc, ret, self.stmts(sc, depth - 1, ret, n or self.r.choice([1, 1, 2, 3])))

    def iff(self, sc, depth, ret):
        arms = []
        for _ in range(self.r.choice([1, 1, 2, 3]) if not self.chance(.03) else self.r.randint(5, 9)):
            arms.append((self.expr('bool', self.p.depth - 1, sc), self.body(sc.child(), depth, ret)))
        els = self.body(sc.child(), depth, ret) if self.chance(.5) else None
        return [If(arms, els)]

    def while_(self, sc, depth, ret):
        n = self.name('w')
        k = self.r.randint(0, 4)
        d = Das(n, Lit(0))
        sc.add(n, 'int', False)
        b = sc.child()
        cond = Bin('<', Var(n, 'int'), Lit(k), 'bool')
        if self.chance(.3):
            cond = Bin('and', cond, self.expr('bool', 2, self.purely(sc)), 'bool')
        body = self.body(b, depth, ret)
        inc = As(Var(n, 'int'), Bin('+', Var(n, 'int'), Lit(1), 'int'))
        if body and isinstance(body[-1], Return):
            body.insert(0, inc)
        else:
            body.append(inc)
        return [d, While(cond, body)]

    def for_range(self, sc, depth, ret):
        n = self.name('i')
        b = sc.child()
        b.add(n, 'int', False)
        c = self.r.random()
        if c < .4:
            a = self.r.randint(-3, 3) if self.chance(.7) else self.r.choice([16, 255, -256, 10, 100, 1 << 31, -(1 << 31) - 2, (1 << 62) - 6, -(1 << 62)])
            z = a + self.r.randint(0, 4)
            lo, hi, down = Lit(a, 'int', self.chance(.15)), Lit(z or 1, 'int', self.chance(.15)), False
        elif c < .55:
            # begin and end both variables
            x, y = self.name('e'), self.name('e')
            pre = [Das(x, Bin('&', self.expr('int', 2, sc), Lit(0xfff), 'int')), Das(y, Bin('+', Var(x, 'int'), Lit(self.r.randint(0, 3)), 'int'))]
            for s in (sc, b):
                s.add(x, 'int', False)
                s.add(y, 'int', False)
            return pre + [ForR(n, Var(x, 'int'), Var(y, 'int'), self.body(b, depth, ret), False)]
        elif c < .75:
            lo, hi, down = Lit(0), Bin('&', self.expr('int', 2, self.purely(sc)), Lit(3), 'int'), False
            # the end is read once per iteration: it must not depend on anything the body changes
            sc2 = self.name('e')
            pre = Das(sc2, hi)
            sc.add(sc2, 'int', False)
            b.add(sc2, 'int', False)
            return [pre, ForR(n, lo, Var(sc2, 'int'), self.body(b, depth, ret), False)]
        else:
            lo, hi, down = Bin('&', self.expr('int', 2, sc), Lit(3), 'int'), Lit(0), True
        return [ForR(n, lo, hi, self.body(b, depth, ret), down)]

    def for_array(self, sc, depth, ret):
        ar = [v for v in sc.vars if not isinstance(v[1], str) and v[1][0] == 'arr']
        if ar and self.chance(.6):
            a = self.var(ar)
        else:
            a = self.expr(('arr', self.rtype(1, self.tps_of(sc))), 2, sc)
        n = self.name('x')
        b = sc.child()
        b.add(n, a.t[1], True)
        return [ForA(n, a, self.body(b, depth, ret))]

    def match(self, sc, depth, ret, final=False):
        ev = [v for v in sc.vars if not isinstance(v[1], str) and v[1][0] == 'en']
        if ev and self.chance(.7):
            x = self.var(ev)
        else:
            ds = self.enums + ([OPTION] if self.p.lib else [])
            if not ds:
                return None
            x = self.expr(self.inst(self.r.choice(ds), 1), 2, sc)
        df = self.defn(x.t)
        m = dict(zip(df.tps, x.t[2]))
        order = list(range(len(df.cases)))
        self.r.shuffle(order)
        arms = []
        for c in order:
            b = sc.child()
            names = []
            for _, ft in df.cases[c][1]:
                n = self.name('m')
                names.append(n)
                b.add(n, subst(ft, m))
            if final:
                st = self.stmts(b, depth - 1, ret, self.r.choice([0, 1]), top=True)
            else:
                st = self.body(b, depth, ret, self.r.choice([1, 1, 2])) if self.chance(.9) else []
            arms.append((c, names, st))
        return [Match(x, df, arms)]

    # ------------------------------------------------------------------ functions
    def func(self, name=None, params=None, ret=None, tps=()):
        if params is None:
            params = [self.rtype(2) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, 4, 5, self.p.nparams]))]
        ret = ret or (self.rtype(2) if self.chance(.75) else 'nothing')
        sc = Scope()
        self.nstmts = 0
        ps = []
        for t in params:
            n = self.name('a')
            ps.append((n, t))
            sc.add(n, t)
        name = name or self.name('fn')
        if ret != 'nothing' and self.chance(.3):
            return Func(name, ps, ret, self.expr(ret, self.p.depth, sc), True, tps)
        return Func(name, ps, ret, self.stmts(sc, self.p.nest - 1, ret, self.r.randint(1, self.p.stmts - 1), top=True), False, tps)

    def recfunc(self):
        """Recursive function: the first parameter counts down."""
        params = ['int'] + [self.rtype(2) for _ in range(self.r.choice([0, 1, 2, 3, self.p.nparams - 1]))]
        ret = self.rtype(2, (), False)
        sc = Scope()
        self.nstmts = 0
        ps = []
        for i, t in enumerate(params):
            n = self.name('a')
            ps.append((n, t))
            sc.add(n, t, i > 0)
        f = Func(self.name('rec'), ps, ret, None)
        f.rec = True
        f.first_class = False
        cnt = Var(ps[0][0], 'int')
        base = If([(Bin('<=', cnt, Lit(0), 'bool'), [Return(self.expr(ret, 2, sc))])], None)
        self.nodes = 0

        def again():
            return Call(f, [Bin('-', cnt, Lit(1), 'int')] + [self.expr(t, 2, sc) for _, t in ps[1:]], ret)
        body = [base] + self.stmts(sc, 1, ret, self.r.choice([0, 1, 2]))
        c = self.r.random()
        if ret == 'int' and c < .5:
            body.append(Return(Bin(self.r.choice(['+', '-', '*', '^']), self.expr('int', 2, sc), again(), 'int')))
        elif ret == 'string' and c < .5:
            body.append(Return(Call(APPEND, [again(), self.expr('string', 1, sc)], 'string', dot=True)))
        elif c < .7:
            n = self.name()
            body.append(Das(n, again()))
            sc.add(n, ret)
            body.extend(self.stmts(sc, 0, ret, 1))
            body.append(Return(self.expr(ret, 2, sc)))
        else:
            body.append(Return(again()))
        f.body = body
        return f

    def gen_funcs(self):
        for _ in range(self.p.funcs):
            if self.chance(self.p.rec):
                self.funcs.append(self.recfunc())
                continue
            if self.chance(self.p.overloads):
                name = self.name('ov')
                sigs = []
                keys = set()
                for _ in range(self.r.choice([2, 3, 4])):
                    if sigs and self.chance(.6):
                        # differs from an earlier one in a single, possibly deeply nested, type
                        s = list(self.r.choice(sigs))
                        k = self.r.randrange(len(s))
                        s[k] = self.near(s[k])
                    else:
                        s = [self.rtype(self.r.choice([1, 2]), (), False) for _ in range(self.r.choice([1, 1, 2, 3]))]
                        if self.chance(.1):
                            s[self.r.randrange(len(s))] = self.fntype(1)
                    key = repr([noret(t) for t in s])
                    if key not in keys:
                        keys.add(key)
                        sigs.append(s)
                new = [self.func(name, s) for s in sigs]
                for f in new:
                    f.first_class = False
                self.funcs.extend(new)
            else:
                self.funcs.append(self.func())
        for _ in range(self.p.gfuncs if self.p.generics else 0):
            g = self.gfunc()
            if g:
                self.genfuncs.append(g)

    def gfunc(self):
        tps = self.r.choice([['T'], ['T'], ['A', 'B'], ['K', 'V', 'W']])
        params = [('tp', t) for t in tps]
        for _ in range(self.r.choice([0, 1, 2])):
            params.append(self.rtype(2, tps))
        self.r.shuffle(params)
        ret = self.rtype(2, tps)
        try:
            return self.func(self.name('gf'), params, ret, tps)
        except Discard:
            return None

    # ------------------------------------------------------------------ observation
    def show(self, t):
        """Function which prints a value of type t (to a given depth)."""
        if t in self.shows:
            return self.shows[t]
        n = '%sshow%d' % (self.px, len(self.shows))
        f = Native(n, [('x', t), ('d', 'int')], 'nothing', None, None)
        self.shows[t] = f
        if t in ('int', 'bool', 'string'):
            arg = {'int': 'x', 'bool': 'x ? "true" : "false"', 'string': 'x'}[t]
            fmt = {'int': '%lld', 'bool': '%s', 'string': "'%s'"}[t]
            f.text = 'fn %s(x: %s, d: int) {\n    printf("%s\\n", %s)\n}\n' % (n, t, fmt, arg)
            conv = {'int': lambda v: b'%d' % v, 'bool': lambda v: b'true' if v else b'false', 'string': lambda v: b"'" + v + b"'"}[t]
            f.fn = lambda it, a: it.emit(conv(a[0]))
            return f
        if t == 'bytes':
            f.text = 'fn %s(x: bytes, d: int) {\n    printf("<%%lld\\n", x.length())\n    for i in 0 .. x.length() {\n        printf("%%lld\\n", x.get(i) & 255)\n    }\n}\n' % n

            def fb(it, a):
                it.emit(b'<%d' % len(a[0].v))
                for e in a[0].v:
                    it.emit(b'%d' % e)
            f.fn = fb
            return f
        head = 'fn %s(x: %s, d: int) {\n    if d == 0 {\n        return\n    }\n' % (n, tsrc(t))
        if t[0] == 'fn':
            f.text = 'fn %s(x: %s, d: int) {\n    printf("fn\\n")\n}\n' % (n, tsrc(t))
            f.fn = lambda it, a: it.emit(b'fn')
        elif t[0] == 'arr':
            g = self.show(t[1])
            f.text = head + '    printf("[%%lld\\n", x.length)\n    for e in x {\n        %s(e, d - 1)\n    }\n}\n' % g.name

            def fa(it, a):
                if a[1] == 0: return
                it.tick()
                it.emit(b'[%d' % len(a[0].v))
                for e in a[0].v:
                    g.fn(it, [e, a[1] - 1])
            f.fn = fa
        elif t[0] == 'st':
            df = self.defn(t)
            m = dict(zip(df.tps, t[2]))
            gs = [(fn, self.show(subst(ft, m))) for fn, ft in df.fields]
            f.text = head + '    printf("%s{\\n")\n' % df.name + ''.join('    %s(x.%s, d - 1)\n' % (g.name, fn) for fn, g in gs) + '}\n'

            def fs(it, a):
                if a[1] == 0: return
                it.tick()
                it.emit(df.name.encode() + b'{')
                for fn, g in gs:
                    g.fn(it, [a[0].f[fn], a[1] - 1])
            f.fn = fs
        elif t[0] == 'en':
            df = self.defn(t)
            m = dict(zip(df.tps, t[2]))
            gs = [(cn, [self.show(subst(ft, m)) for _, ft in fs]) for cn, fs in df.cases]
            f.text = head + '    match x {\n'
            for cn, g in gs:
                f.text += '        case %s(%s):\n            printf("%s\\n")\n' % (cn, ', '.join('v%d' % i for i in range(len(g))), cn)
                f.text += ''.join('            %s(v%d, d - 1)\n' % (h.name, i) for i, h in enumerate(g))
            f.text += '    }\n}\n'

            def fe(it, a):
                if a[1] == 0: return
                it.tick()
                cn, g = gs[a[0].case]
                it.emit(cn.encode())
                for h, v in zip(g, a[0].f):
                    h.fn(it, [v, a[1] - 1])
            f.fn = fe
        return f

    def test(self, i):
        """A test function: random statements, then all visible variables are shown."""
        sc = Scope()
        self.nstmts = 0
        st = self.stmts(sc, self.p.nest, 'nothing', self.p.stmts)
        st = [s for s in st]
        for n, t, _ in sc.vars:
            if not self.is_tp(t):
                if t[0] == 'fn' and len(t[1]) <= 5:
                    for _ in range(2):
                        x = CallV(Var(n, t), [self.expr(q, 1, Scope()) for q in t[1]], t[2])
                        if t[2] == 'nothing':
                            st.append(Ex(x))
                        else:
                            st.append(Ex(Call(self.show(t[2]), [x, Lit(3)], 'nothing')))
                else:
                    st.append(Ex(Call(self.show(t), [Var(n, t), Lit(4)], 'nothing')))
        return Func('%stest%d' % (self.px, i), [], 'nothing', st)

    def program(self):
        self.gen_types()
        self.gen_funcs()
        tests = []
        for i in range(self.p.tests):
            try:
                tests.append(self.test(i))
            except Discard:
                pass
        return tests


def walk_calls(x, seen):
    """Functions (transitively) referenced by an AST node."""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, Func):
            if id(n) in seen:
                continue
            seen[id(n)] = n
            if n.body is not None:
                stack.append(n.body)
        elif isinstance(n, (list, tuple)):
            stack.extend(n)
        elif isinstance(n, (E, Das, As, Ex, If, While, ForR, ForA, Match, Return)):
            if isinstance(n, (Call, FnRef)):
                stack.append(n.f)
            names = []
            for c in type(n).__mro__:
                names += getattr(c, '__slots__', ())
            if hasattr(n, '__dict__'):
                names += list(n.__dict__)
            for a in names:
                if a in ('t', 'd'):
                    continue
                v = getattr(n, a, None)
                if isinstance(v, (E, Func, list, tuple, Das, As, Ex, If, While, ForR, ForA, Match, Return)):
                    stack.append(v)


class Program:
    """A whole program with its expected trace."""

    def __init__(self, gen, tests, fuel=60000):
        self.gen = gen
        self.tests, self.expected, self.allocs = [], [], 0
        for t in tests:
            it = Interp(fuel)
            try:
                call(it, t, [])
            except (Discard, RecursionError):
                continue
            except Stop as s:
                continue
            if sum(len(x) for x in it.trace) > 200000 or it.allocs > 4000:
                continue
            self.tests.append(t)
            self.expected.append(it.trace)
            self.allocs += it.allocs

    def source(self):
        g = self.gen
        out = []
        for d in g.structs + g.enums:
            out.append(d.src())
        for f in [g.tr, g.trb, g.trs, g.wi, BMK, BGET, BSET]:
            out.append(f.src())
        for f in g.funcs + g.genfuncs + list(g.shows.values()) + self.tests:
            out.append(f.src())
        out.append('fn main() {\n' + ''.join('    printf("# %d\\n")\n    %s()\n' % (i, t.name) for i, t in enumerate(self.tests)) + '    printf("# end\\n")\n}\n')
        return '\n'.join(out)

    def expected_output(self):
        out = []
        for i, tr in enumerate(self.expected):
            out.append(b'# %d' % i)
            out.extend(tr)
        out.append(b'# end')
        return b'\n'.join(out) + b'\n'


def make(rng, prof, fuel=60000):
    for _ in range(50):
        g = Gen(rng, prof)
        try:
            p = Program(g, g.program(), fuel)
        except RecursionError:
            continue
        if len(p.source()) < 150000:      # nested defaults of nested types sometimes explode; the compiler is slow on lines of that length
            break
    return p
