"""An independent tokenizer and recogniser for Clara source, written from the language description. Used to decide
whether a source is well formed, and where the first thing that cannot be part of any program is."""
import unicodedata

KEYWORDS = {'fn', 'return', 'if', 'elseif', 'else', 'true', 'false', 'not', 'and', 'or', 'struct', 'while', 'for', 'in',
            'enum', 'match', 'case', 'type'}
OPS2 = {':=', '>>', '>=', '<<', '<=', '..', '=='}
OPS1 = set('(){}[]«»#?,:+-*~^|&><.=/')
TERM = set('( :,)\r\n.+-*/><[]«»')


class LexError(Exception):
    def __init__(self, kind, line, col):
        self.kind, self.line, self.col = kind, line, col


class Tok:
    __slots__ = ('k', 'v', 'line', 'col', 'i', 'j')

    def __init__(self, k, v, line, col, i, j):
        self.k, self.v, self.line, self.col, self.i, self.j = k, v, line, col, i, j

    def __repr__(self):
        return '%d:%d %s %r' % (self.line, self.col, self.k, self.v)


def letter(c):
    return c == '_' or unicodedata.category(c)[0] == 'L'


def digit(c):
    return unicodedata.category(c) == 'Nd'


def hexdigit(c):
    return digit(c) or c in 'abcdefABCDEF'


def decode(b):
    """Bytes to text: a byte which is not part of valid UTF-8 becomes one character outside every class."""
    return b.decode('utf-8', 'surrogateescape')


def lex(src):
    """Tokens of src (text). Kinds: id, kw, int, str, op, eof. White space and comments are dropped.
    Raises LexError at the first character which cannot be part of a token."""
    toks = []
    i, n = 0, len(src)
    line, start = 1, 0
    while True:
        if i >= n:
            toks.append(Tok('eof', '', line, i - start + 1, i, i))
            return toks
        c = src[i]
        if c == '\n':
            line += 1
            i += 1
            start = i
            continue
        if c in ' \r':
            i += 1
            continue
        if src.startswith('//', i):
            while i < n and src[i] not in '\r\n':
                i += 1
            continue
        b = i
        col = b - start + 1
        if c == '"':
            i += 1
            while True:
                if i >= n or src[i] == '\n':
                    raise LexError('string', line, i - start + 1)
                if src[i] == '"':
                    break
                if src[i] == '\\':
                    i += 1
                    if i >= n or src[i] not in 'rn\\"':
                        raise LexError('escape', line, i - start + 1)
                i += 1
            i += 1
            toks.append(Tok('str', src[b:i], line, col, b, i))
        elif c in '0123456789':
            i += 1
            if c == '0' and i < n and src[i] == 'x':
                i += 1
                if i >= n or not hexdigit(src[i]):
                    raise LexError('hex', line, i - start + 1)
                while i < n and hexdigit(src[i]):
                    i += 1
            else:
                while i < n and digit(src[i]):
                    i += 1
            toks.append(Tok('int', src[b:i], line, col, b, i))
        elif letter(c):
            while i < n and (letter(src[i]) or digit(src[i])):
                i += 1
            if i < n and src[i] not in TERM:
                raise LexError('char', line, i - start + 1)
            w = src[b:i]
            toks.append(Tok('kw' if w in KEYWORDS else 'id', w, line, col, b, i))
        elif src[i:i + 2] in OPS2:
            i += 2
            toks.append(Tok('op', src[b:i], line, col, b, i))
        elif c in OPS1:
            i += 1
            toks.append(Tok('op', c, line, col, b, i))
        else:
            raise LexError('char', line, col)


class SyntaxErr(Exception):
    def __init__(self, tok, want):
        self.tok, self.want = tok, want


INFIX = {'(', '«', '[', '?', '.', '+', '-', '*', '/', '<<', '>>', '&', '|', '^', '>', '>=', '<', '<=', '==', 'and', 'or'}


class Recogniser:
    """Decides whether the tokens form a program; raises SyntaxErr at the first token which cannot continue one."""

    def __init__(self, toks):
        self.t, self.p = toks, 0

    def at(self, *vs):
        x = self.t[self.p]
        return x.k in ('op', 'kw') and x.v in vs

    def kind(self, k):
        return self.t[self.p].k == k

    def fail(self, want):
        raise SyntaxErr(self.t[self.p], want)

    def need(self, v):
        if not self.at(v):
            self.fail(v)
        self.p += 1

    def needid(self):
        if not self.kind('id'):
            self.fail('<identifier>')
        self.p += 1

    def program(self):
        self.decls = []         # (first token, token after, kind, name, extern)
        while not self.kind('eof'):
            b = self.p
            k, name = self.decl()
            self.decls.append((b, self.p, k, name, k == 'fn' and self.extern))

    def decl(self):
        if self.at('#'):
            self.p += 1
            self.need('[')
            self.needid()
            while self.at(','):
                self.p += 1
                self.needid()
            self.need(']')
        name = self.t[min(self.p + 1, len(self.t) - 1)].v
        if self.at('fn'):
            self.p += 1
            self.fn(False)
            return 'fn', name
        if self.at('struct'):
            self.p += 1
            self.needid()
            if self.at('«'):
                self.typelist()
            self.need('{')
            while not self.at('}'):
                self.param()
            self.p += 1
            return 'struct', name
        if self.at('enum'):
            self.p += 1
            self.needid()
            if self.at('«'):
                self.typelist()
            self.need('{')
            while not self.at('}'):
                self.needid()
                self.params()
            self.p += 1
            return 'enum', name
        self.fail('declaration')

    def fn(self, anon):
        if not anon:
            self.needid()
        if self.at('«'):
            self.typelist()
        self.params()
        if self.at('fn', '[') or self.kind('id'):
            self.type()
        if self.at('{'):
            self.block()
            self.extern = False
        elif self.at('='):
            self.p += 1
            self.expr()
            self.extern = False
        elif anon:
            self.fail('{ or =')
        else:
            self.extern = True

    def typelist(self):
        self.need('«')
        if not self.at('»'):
            self.type()
            while self.at(','):
                self.p += 1
                self.type()
        self.need('»')

    def params(self):
        self.need('(')
        if not self.at(')'):
            self.param()
            while self.at(','):
                self.p += 1
                self.param()
        self.need(')')

    def param(self):
        self.needid()
        self.need(':')
        self.type()

    def type(self):
        if self.at('fn'):
            self.p += 1
            self.need('(')
            if not self.at(')'):
                self.type()
                while self.at(','):
                    self.p += 1
                    self.type()
            self.need(')')
            if self.at('fn', '[') or self.kind('id'):
                self.type()
        elif self.at('['):
            self.p += 1
            self.need(']')
            self.type()
        elif self.kind('id'):
            self.p += 1
            if self.at('«'):
                self.typelist()
        else:
            self.fail('<type>')

    def block(self):
        self.need('{')
        while not self.at('}'):
            self.stmt()
        self.p += 1

    def exprstart(self):
        return self.kind('id') or self.kind('int') or self.kind('str') or self.at('true', 'false', 'not', '~', '(', 'fn', '-', '[')

    def stmt(self):
        if self.at('return'):
            self.p += 1
            if self.exprstart():
                self.expr()
        elif self.at('while'):
            self.p += 1
            self.expr()
            self.block()
        elif self.at('for'):
            self.p += 1
            self.needid()
            self.need('in')
            self.expr()
            if self.at('..'):
                self.p += 1
                self.expr()
            self.block()
        elif self.at('if'):
            self.p += 1
            self.expr()
            self.block()
            while self.at('elseif'):
                self.p += 1
                self.expr()
                self.block()
            if self.at('else'):
                self.p += 1
                self.block()
        elif self.at('match'):
            self.p += 1
            self.expr()
            self.need('{')
            while not self.at('}'):
                self.need('case')
                self.needid()
                self.need('(')
                if not self.at(')'):
                    self.needid()
                    while self.at(','):
                        self.p += 1
                        self.needid()
                self.need(')')
                self.need(':')
                while not self.at('case', '}'):
                    self.stmt()
            self.p += 1
        elif self.exprstart():
            self.expr()
            if self.at('=', ':='):
                self.p += 1
                self.expr()
        else:
            self.fail('<statement>')

    def expr(self):
        self.operand()
        while self.at(*INFIX):
            v = self.t[self.p].v
            self.p += 1
            if v == '(':
                self.list(')')
            elif v == '«':
                if not self.at('»'):
                    self.type()
                    while self.at(','):
                        self.p += 1
                        self.type()
                self.need('»')
                self.need('(')
                self.list(')')
            elif v == '[':
                self.expr()
                self.need(']')
            elif v == '?':
                self.expr()
                self.need(':')
                self.operand()
            else:
                self.operand()

    def list(self, end):
        if not self.at(end):
            self.expr()
            while self.at(','):
                self.p += 1
                self.expr()
        self.need(end)

    def operand(self):
        while self.at('not', '~', '-'):
            self.p += 1
        if self.kind('id') or self.kind('int') or self.kind('str') or self.at('true', 'false'):
            self.p += 1
        elif self.at('('):
            self.p += 1
            self.expr()
            self.need(')')
        elif self.at('fn'):
            self.p += 1
            self.fn(True)
        elif self.at('type'):
            self.p += 1
            self.need('(')
            self.type()
            self.need(')')
        elif self.at('['):
            self.p += 1
            self.list(']')
        else:
            self.fail('<expression>')


def check(src):
    """None if src (text) is well formed, otherwise ('lex', LexError) or ('syntax', SyntaxErr)."""
    try:
        toks = lex(src)
    except LexError as e:
        return ('lex', e)
    try:
        Recogniser(toks).program()
    except SyntaxErr as e:
        return ('syntax', e)
    return None
