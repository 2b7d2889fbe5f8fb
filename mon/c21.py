"""The token stream of a source compared with an independent tokenizer."""
import os, re, shutil
from . import core, gen, syntax
from .c10 import corpus

RULE = ('the token listing of the compiler (-lex) is recorded for random sequences of words, keywords and near-keywords, numbers, strings, comments and adjacent operators with random spacing, line ends and non-ASCII '
        'text, for all repository sources and for mutations of them; every token (text, kind, line, column), the end-of-file token and the error token are compared with an independent tokenizer. One evaluation is one '
        'source; distinct sources with at least one token count as non-trivial')

KW = sorted(syntax.KEYWORDS)
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_éßñΩжя漢字ªǅא'
DIGITS = '0123456789٣४'
OPS = sorted(syntax.OPS1 | syntax.OPS2) + ['>>>', '>>=', '<<<=', '===', '....', '...', ':==', '::=', '==:=', '///', '-->', '~-', '<-', '..=', '=<', '=>', '>=<', '=.', '.=.']
BAD = ['$', '@', '`', ';', "'", '!', '%', '\\', '\t', '\x00', '\x0b', '\x0c', '\x7f', '\u00a0', '\u2028', '\u20ac', '\ufeff', '\u0301', '½', '²', '\udcff', '\udcc3', '"', '"abc', '0x', '0xg', '"\\t"', '"\\']


def word(r):
    c = r.random()
    if c < .3:
        return r.choice(KW)
    if c < .6:
        k = r.choice(KW)
        return r.choice([k + r.choice('sxé1_'), r.choice('a_é') + k, k.upper(), k.capitalize(), k[:-1] or 'f', k + k, k + '0'])
    return r.choice(LETTERS) + ''.join(r.choice(LETTERS + DIGITS) for _ in range(r.choice([0, 1, 3, 10])))


def string(r):
    return '"' + ''.join(r.choice(['a', ' ', '//', 'é', '漢', '\\n', '\\r', '\\\\', '\\"', '{', '}', "'", '\t', '\udcff', 'fn', '\r', '$', '🧹']) for _ in range(r.choice([0, 1, 2, 6, 20]))) + '"'


def number(r):
    return r.choice(['0', '1', '007', '42', '0x0', '0xFf', '0xdeadBEEF', '123456789012345678901234567890', '9', '10', '0x' + '1' * 17, '1٣', '0٣', '00x1'])


def space(r):
    return r.choice([' ', ' ', ' ', '  ', '\n', '\n', '\n\n', '\r\n', '\r', ' \n ', '\n    ', ' // c\n', '// "x" fn é\n', '//\n', '// a\r', '//a\r\n', '/// b\n', '// a */ b\n', '//* x *\n', '// a // b \\\n', '// \\n \"\n', '// {[( fn\t\x00 »\n', '//' + 'é' * 300 + '\n', '// \udcff\n'])


def soup(r):
    out = []
    for _ in range(r.choice([0, 1, 5, 30, 120])):
        c = r.random()
        out.append(word(r) if c < .35 else r.choice(OPS) if c < .7 else string(r) if c < .82 else number(r))
        if r.random() < .75 or c < .35 and r.random() < .8:
            out.append(space(r))
    if r.random() < .25:
        out.insert(r.randrange(len(out) + 1), r.choice(BAD))
    return ''.join(out) + r.choice(['', '', '\n', ' ', '// end', '//', '\r'])


LINE = re.compile(r'^(.*?):(\d+):(\d+):, (.*) ([^"]*)$', re.S)
ESC = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': 92, '"': 34}


def unquote(s):
    """Inverse of Go's %q."""
    if len(s) < 2 or s[0] != '"' or s[-1] != '"':
        return None
    out, i = bytearray(), 1
    while i < len(s) - 1:
        c = s[i]
        if c == '\\':
            e = s[i + 1]
            if e in ESC:
                out.append(ESC[e]); i += 2
            elif e == 'x':
                out.append(int(s[i + 2:i + 4], 16)); i += 4
            elif e == 'u':
                out += chr(int(s[i + 2:i + 6], 16)).encode(); i += 6
            elif e == 'U':
                out += chr(int(s[i + 2:i + 10], 16)).encode(); i += 10
            else:
                return None
        else:
            out += c.encode('utf-8', 'surrogateescape'); i += 1
    return syntax.decode(bytes(out))


def listing(out, path):
    """Token lines printed for one file: [(line, col, text after position)]."""
    res = []
    pre = path + ':'
    for l in core.strip_ansi(out).decode('utf-8', 'surrogateescape').split('\n'):
        if l.startswith(pre):
            m = re.match(r'(\d+):(\d+):, (.*)$', l[len(pre):], re.S)
            if m:
                res.append((int(m.group(1)), int(m.group(2)), m.group(3)))
    return res


def show(t):
    if t.k == 'eof':
        return 'EOF <EOF>'
    return None


def compare(src, out, path):
    """None or a description of the first difference."""
    got = listing(out, path)
    try:
        want = syntax.lex(src)
    except syntax.LexError as e:
        errs = [x for x in core.error_lines(out)]
        if got:
            return 'tokens listed for a source with an invalid character at %d:%d' % (e.line, e.col)
        mine = [x for x in errs if x.startswith(path + ':')]
        if not mine:
            return 'no error for invalid character at %d:%d' % (e.line, e.col)
        m = re.match(r'(\d+):(\d+)', mine[0][len(path) + 1:])
        if len(mine) != 1:
            return 'more than one lexical error: %r' % mine[:3]
        if (int(m.group(1)), int(m.group(2))) != (e.line, e.col):
            return 'lexical error reported at %s, but the first invalid character is at %d:%d' % (m.group(0), e.line, e.col)
        return None
    for i, t in enumerate(want):
        if i >= len(got):
            return 'token stream ends before %r' % t
        l, c, txt = got[i]
        if (l, c) != (t.line, t.col):
            return 'token %d is listed at %d:%d (%s), expected %r' % (i, l, c, txt, t)
        if t.k == 'eof':
            ok = txt.split(' ')[0] == 'EOF'
        elif t.k == 'kw':
            ok = txt.split(' ')[0] == '<%s>' % t.v
        elif t.k == 'int':
            ok = txt == t.v + ' <integer lit>'
        else:
            k = txt.rfind('"')
            v = unquote(txt[:k + 1])
            rest = txt[k + 1:].strip()
            ok = v == t.v and (rest == '<identifier>' if t.k == 'id' else rest == '<string lit>' if t.k == 'str' else rest not in ('<identifier>', '<string lit>', '<integer lit>', '<EOF>'))
        if not ok:
            return 'token %d is listed as %s, expected %r' % (i, txt, t)
    if len(got) != len(want):
        return '%d tokens listed after the end of the file: %r' % (len(got) - len(want), got[len(want):][:2])
    return None


def job(ctx, it):
    kind, key, n = it
    r = core.rng_for('c21', ctx['seed'], kind, key)
    d = os.path.join(ctx['scratch'], 'j%s-%s' % (kind, key))
    res = []
    for i in range(n):
        if kind == 'soup':
            src = soup(r)
        elif kind == 'file':
            src = ctx['files'][key]
        else:
            src = ctx['files'][key % len(ctx['files'])]
            for _ in range(r.choice([1, 2])):
                p = r.randrange(len(src) + 1)
                q = p + r.choice([0, 0, 1, 3])
                src = src[:p] + r.choice([word(r), r.choice(OPS), string(r), number(r), space(r), r.choice(BAD), '']) + src[q:]
        b = src.encode('utf-8', 'surrogateescape')
        src = syntax.decode(b)
        shutil.rmtree(d, ignore_errors=True)
        c = ctx['comp'].compile_src(b, d, opts=('-lex',))
        v = None
        if c.timeout or core.crashed(c):
            v = 'compiler crashed or does not terminate: %r' % c.out[-300:]
        else:
            v = compare(src, c.out, os.path.join(d, 'p.clara'))
        # the listing of a library file is checked now and then too
        if v is None and i == 0 and kind == 'file':
            for f, s in ctx['libs']:
                v = v or compare(s, c.out, os.path.join(ctx['comp'].install, 'lib', f))
        try:
            nt = len(syntax.lex(src))
            bad = False
        except syntax.LexError:
            nt, bad = 2, True
        res.append(dict(v=v, n=nt, bad=bad, h=core.hashlib.sha1(b).hexdigest(), src=b if v else None, head=src[:200]))
    shutil.rmtree(d, ignore_errors=True)
    return dict(kind=kind, res=res)


def run(chk):
    b = chk.build()
    fs = [s for _, s in corpus(chk)]
    libs = []
    lib = os.path.join(b.install, 'lib')
    for f in sorted(os.listdir(lib)):
        libs.append((f, syntax.decode(open(os.path.join(lib, f), 'rb').read())))
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch, seed=chk.seed, files=fs, libs=libs)
    items = [('soup', i, 25) for i in range(chk.n(64, 400))] + [('file', i, 1) for i in range(len(fs))] + [('edit', i, 8) for i in range(chk.n(80, 400))]
    for r in core.pmap(job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for x in r['res']:
            chk.saw(x['h'], x['n'] > 1)
            chk.note('tokens_compared', 0 if x['bad'] else x['n'])
            chk.note('sources_' + r['kind'])
            if x['bad'] != (len(chk.samples) % 2 == 0) and r['kind'] != 'file':
                chk.sample(dict(kind=r['kind'], tokens=x['n'], invalid_character=x['bad'], source=x['head']))
            if x['bad']:
                chk.note('sources_with_invalid_character')
            if x['v']:
                chk.violation('%s: %s' % (r['kind'], x['v']), {'program.clara': x['src']})
