"""Rewriting a program without changing its meaning must not change what the compiler makes of it."""
import os, re, shutil
from . import core, gen, lang, syntax
from .c09 import HELPERS, BADX, BADS, BADD, TStmt
from .c11 import layout
from .lang import *

RULE = ('random programs (with a reference trace), the repository\'s test programs and invalid programs are rewritten: new layout (spaces, line breaks, comments, all on few lines), consistent renaming of all identifiers (short, long, '
        'non-ASCII, near keywords, register and C function names), permuted top-level declarations, redundant parentheses, added unused declarations, other file names, directories and path spellings, repeated compilation, '
        'and combinations. The rewritten program must compile (or be rejected) like the original and give the same trace. One evaluation is one rewritten program')

NEW = ['rax', 'rbp', 'eax', 'al', 'st0', 'mov', 'ptr', 'offset', 'byte', 'qword', 'dword', 'add', 'sub', 'eq', 'ne', 'lt', 'mod', 'shl', 'xor', 'nop', 'ret', 'call', 'push', 'pop', 'jmp', 'text', 'data', 'global', 'section', 'rip',
       'malloc', 'free', 'memcpy', 'strlen', 'puts', 'write', 'abort', 'environ', 'stdout', 'errno', 'atexit', 'iff', 'elsei', 'elseiff', 'format', 'inn', 'matches', 'cases', 'types', 'fnn', 'truex', 'falsey', 'orr', 'andy', 'nothing2', 'ints', 'returns', 'whiles', 'structs', 'enums',
       '_', '__', '_1', 'é', 'ñandú', 'ж', 'ω', 'δέλτα', 'переменная', '漢字', '変数', 'x', 'y', 'i', 'tmp', 'env', 'cl', 'clFn', 'this', 'self', 'function', 'parameter', 'integer', 'boolean', 'heap', 'stack', 'gcx', 'start', '_start', 'etext', 'end', 'edata', 'r8', 'r15', 'xmm0', 'cs', 'ds', 'lea', 'not_', 'equ', 'rept', 'a1', 'O', 'l', 'I', 'lO', 'A', 'Z', 'ABC', 'DEADBEEF', 'e1', 'x1F', 'b1']


def words(src):
    return {t.v for t in syntax.lex(src) if t.k == 'id'}


def reserved():
    out = {'int', 'bool', 'string', 'bytes', 'nothing', 'pointer', 'length', 'deref', 'printf', 'debug', 'main', 'unsafe', 'ExtRet', 'RawValues', 'T'}
    d = os.path.join(core.REPO, 'install', 'lib')
    for f in sorted(os.listdir(d)):
        if f.endswith('.clara'):
            src = syntax.decode(open(os.path.join(d, f), 'rb').read())
            out |= words(src)
            out |= {w[:1].upper() + w[1:] for w in words(src)}
    return out


def split(src):
    toks = syntax.lex(src)
    r = syntax.Recogniser(toks)
    r.program()
    return toks, r.decls


def rename(r, src, res, style):
    toks, decls = split(src)
    keep = set(res) | {d[3] for d in decls if d[4]}
    keep |= {w[:1].upper() + w[1:] for w in keep}
    ids = sorted({t.v for t in toks if t.k == 'id'} - keep)
    structs = [d[3] for d in decls if d[2] == 'struct' and d[3] not in keep]
    used = keep | syntax.KEYWORDS
    m = {}
    pool = [w for w in NEW if w not in used]
    r.shuffle(pool)

    def fresh(lower):
        for n in range(1, 100000):
            k = r.random()
            if style == 'short':
                w = ''.join(r.choice('abcdefgxyz') for _ in range(r.choice([1, 2, 3]) + n // 10))
            elif style == 'long':
                w = ''.join(r.choice('abcdefghijklmnopqrstuvwxyz_ABC019') for _ in range(r.choice([40, 120, 400])))
            elif style == 'wide':
                w = ''.join(r.choice('éñжωλ漢字変数дßàø') for _ in range(r.choice([1, 2, 5, 12]) + n // 10))
            elif style == 'case':
                w = ''.join(c.upper() if r.random() < .5 else c for c in ('samename' * 9)[:r.choice([4, 8, 8]) + n // 8])
            elif style == 'prefix':
                w = r.choice(['main', 'a', 'a_b', 'clara', 'string', 'array', 'int', 'toString', 'x'])
                w += ''.join(r.choice(['_', 'a', 'b', '1', '2', 'x', 'Loop', 'main', 'int', '_int', '_string', 'array']) for _ in range(r.choice([0, 1, 1, 2]) + n // 10))
            elif pool and k < .7:
                w = pool.pop()
            else:
                w = 'n%d' % r.randrange(100000)
            if not (w[0] == '_' or w[0].isalpha()):
                w = 'a' + w
            if lower and w[:1].upper() == w[:1] or lower and (len(w[:1].upper()) != 1):
                w = r.choice('abcéж') + w
            if lower and w[:1] in 'ß':
                w = 'b' + w
            up = w[:1].upper() + w[1:]
            if w in used or up in used and lower or w in m.values() or up in m.values():
                continue
            return w
    for s in structs:
        w = fresh(True)
        m[s] = w
        m[s[:1].upper() + s[1:]] = w[:1].upper() + w[1:]
    for w in ids:
        if w not in m:
            m[w] = fresh(False)
    out, last = [], 0
    for t in toks:
        out.append(src[last:t.i])
        out.append(m.get(t.v, t.v) if t.k == 'id' else src[t.i:t.j])
        last = t.j
    return ''.join(out) + src[last:]


def reorder(r, src):
    toks, decls = split(src)
    parts = []
    for b, e, *_ in decls:
        parts.append(src[toks[b].i:toks[e - 1].j])
    k = r.random()
    if k < .3:
        parts.reverse()
    elif k < .5:
        n = r.randrange(len(parts)) if parts else 0
        parts = parts[n:] + parts[:n]
    else:
        r.shuffle(parts)
    # nothing may be swallowed: a declaration without a body followed by one which starts differently is still separate
    return '\n'.join(parts) + '\n'


def squeeze(src):
    """Everything on one line, with as few spaces as possible."""
    toks = syntax.lex(src)
    out, last = [], None
    for t in toks:
        if t.k == 'eof':
            break
        v = src[t.i:t.j]
        if last is not None:
            w = lambda x: x.k in ('id', 'kw', 'int')
            try:
                # does the pair read back as the same two tokens?
                two = syntax.lex(src[last.i:last.j] + v + ' ')
                ok = len(two) == 3 and two[0].v == src[last.i:last.j] and two[1].v == v
            except syntax.LexError:
                ok = False
            if not ok:
                out.append(' ')
        out.append(v)
        last = t
    return ''.join(out) + '\n'


class Parens:
    """While active, expressions are rendered with redundant parentheses."""

    def __init__(self, r, prob):
        self.r, self.p, self.on = r, prob, True

    def __enter__(self):
        me = self
        self.saved = []
        for c in [Lit, Var, Bin, Un, Tern, Call, CallV, FnRef, New, Case, Fld, Len, Idx, ArrLit]:
            orig = c.s
            self.saved.append((c, 's', orig))

            def s(x, p, orig=orig):
                if me.on and me.r.random() < me.p:
                    t = orig(x, 0)
                    n = me.r.choice([1, 1, 1, 2])
                    return '(' * n + t + ')' * n
                return orig(x, p)
            c.s = s
        for c in [Ex, As, Match]:
            orig = c.src
            self.saved.append((c, 'src', orig))

            def src(x, i, orig=orig):
                t = orig(x, i)
                if t.lstrip().startswith('('):      # would continue the expression before it
                    on, me.on = me.on, False
                    t = orig(x, i)
                    me.on = on
                return t
            c.src = src
        return self

    def __exit__(self, *a):
        for c, n, f in self.saved:
            setattr(c, n, f)


def unused(r, i):
    """Declarations of another program, with names of their own."""
    p = gen.make(core.rng_for('C19u', i, r.random()), gen.Prof(tests=1, funcs=3, gfuncs=2, stmts=3, nodes=12, depth=3, structs=2, enums=2), 4000)
    src = p.source()
    src = src[:src.index('fn main() {')]
    toks, decls = split(src)
    mine = {d[3] for d in decls}
    for b, e, k, name, _ in decls:
        if k == 'struct':
            mine.add(name[:1].upper() + name[1:])
        if k == 'enum':
            j = b
            # case names: identifiers followed by ( at the level of the enum
            while j < e:
                if toks[j].k == 'id' and toks[j + 1].v == '(' and toks[j - 1].v in ('{', ')'):
                    mine.add(toks[j].v)
                j += 1
    out, last = [], 0
    for t in toks:
        out.append(src[last:t.i])
        out.append((t.v + 'unused') if t.k == 'id' and t.v in mine else src[t.i:t.j])
        last = t.j
    return ''.join(out)


PATHS = [('a b', 'p.clara'), ('é漢', 'pé漢.clara'), ('%d%s%n', '%s%d.clara'), ("q'uote", 'a b c.clara'), ('do$llar', 'x.y.z.clara'), ('deep/er/and/deeper', 'p'), ('-dash', '-dash.clara'), ('star', 'a*b.clara'), ('d.clara', 'p.txt'), ('long' * 40, 'n' * 150 + '.clara'),
         ('quote"d', '"p".clara'), ('back\\slash', 'b\\n.clara'), ('semi;colon', 'a;b.clara'), ('hash#', '#p.clara'), ('amp&', '@p.clara'), ('new', 'main.clara'), ('x', 'gcc.clara'), ('.hidden', '.p.clara'), ('up', 'P.CLARA')]


def job(ctx, it):
    kind, key = it
    r = core.rng_for('C19', ctx['seed'], kind, key)
    comp = ctx['comp']
    d = os.path.join(ctx['scratch'], 'j%s-%s' % (kind, key))
    out = dict(kind=kind, res=[])
    prog = None
    if kind == 'gen':
        prof = gen.Prof(**dict(dict(tests=4, funcs=6, gfuncs=3, stmts=4), **[dict(), dict(w_closure=4), dict(generics=.8), dict(w_struct=3, w_enum=3, w_array=3), dict(nest=3, w_if=3, w_match=3)][key % 5]))
        prog = gen.make(r, prof, 20000)
        src, exp = prog.source(), prog.expected_output()
    elif kind == 'repo':
        src, exp = ctx['repo'][key], None
    else:
        text, what = ctx['bad'][key]
        src, exp = HELPERS + {'X': 'fn main() {\n    hq := ' + text + '\n}\n', 'T': 'fn main() {\n' + TStmt(text).src(1) + '}\n', 'D': text + '\nfn main() {\n}\n'}[what], None

    # the original
    c = comp.compile_src(src, d + '/base', 'p')
    if kind == 'bad':
        if c.exe or c.rc != 1:
            return out      # accepted although invalid: another property's matter
    else:
        if c.rc != 0 or not c.exe:
            return out
        b = core.run_exe(c.exe)
        if exp is None:
            exp = b.out
            again = core.run_exe(c.exe)
            if again.out != b.out or b.rc != 0:
                return out
        elif b.out != exp or b.rc != 0:
            return out      # wrong from the start: another property's matter
    out['base'] = True
    # names a program prints itself (names of types) are part of its output
    shown = {t for t in re.findall(r'\w+', exp.decode('utf-8', 'replace'))} if kind == 'repo' else set()

    def rewrite(steps):
        t = src
        if 'parens' in steps and prog:
            with Parens(r, r.choice([.2, .6, 1])):
                t = prog.source()
        if 'unused' in steps:
            u = unused(r, key)
            t = t + '\n' + u if r.random() < .5 else u + '\n' + t
        if 'reorder' in steps:
            t = reorder(r, t)
        if 'rename' in steps:
            t = rename(r, t, ctx['res'] | shown, r.choice(['short', 'long', 'wide', 'pool', 'case', 'prefix']))
        if 'squeeze' in steps and len(t) < 60000:        # very long lines take the compiler very long
            t = squeeze(t)
        if 'layout' in steps:
            t = layout(r, t, r.choice([.1, .5, 1]))[0]
        return t
    steps = [['layout'], ['rename'], ['rename'], ['rename'], ['rename'], ['reorder'], ['squeeze'], ['unused'], ['path'], ['again'], ['parens'], ['unused', 'reorder', 'rename'], ['parens', 'rename', 'layout'], ['parens', 'unused', 'reorder', 'rename', 'squeeze', 'path']]
    if kind == 'bad':
        steps = [r.choice(steps) for _ in range(2)]
    elif kind == 'repo':
        steps = [s for s in steps if 'parens' not in s]
    for i, st in enumerate(steps):
        t = rewrite(st)
        dd = os.path.join(d, str(i))
        opt = ''
        if 'path' in st:
            sub, name = r.choice(PATHS)
            os.makedirs(os.path.join(dd, sub))
            path = os.path.join(dd, sub, name)
            with open(path, 'wb') as f:
                f.write(t.encode('utf-8', 'surrogateescape'))
            o = os.path.join(dd, r.choice(['o', 'out put', 'ö']))
            os.makedirs(o)
            stem = os.path.splitext(name)[0] if not name.startswith('.') or name.count('.') > 1 else name
            how = r.choice(['abs', 'rel', 'dots', 'link'])
            opt = ' (%s, %s)' % (os.path.join(sub, name), how)
            arg = path
            if how == 'rel':
                arg = os.path.relpath(path, o)
            elif how == 'dots':
                arg = os.path.join(dd, sub, '..', os.path.basename(sub), '.', name) if '/' not in sub else path
            elif how == 'link':
                os.makedirs(dd + '/l')
                arg = dd + '/l/lnk.clara'
                os.symlink(path, arg)
                stem = 'lnk'
            c = comp.compile(arg, o)
            exe = os.path.join(o, stem)
            c.exe = exe if os.path.isfile(exe) and os.access(exe, os.X_OK) else None
        else:
            c = comp.compile_src(t, dd, 'p')
        v = None
        if c.timeout:
            out['slow'] = out.get('slow', 0) + 1
            continue
        elif kind == 'bad':
            if c.exe or c.rc != 1:
                v = 'an invalid program is accepted after rewriting (status %s)' % c.rc
        elif c.rc != 0 or not c.exe:
            v = 'not compiled after rewriting (status %s): %s' % (c.rc, core.strip_ansi(c.out)[-300:].decode('utf-8', 'replace'))
        else:
            x = core.run_exe(c.exe)
            if x.timeout == 'wall':
                continue
            if x.out != exp or x.rc != 0:
                v = 'behaves differently after rewriting (status %s): expected %r, got %r' % (x.rc, exp[-150:], x.out[-150:])
        out['res'].append(dict(st='+'.join(st), v=(v + opt) if v else None, src=t if v else '', h=core.hashlib.sha1((t + opt).encode('utf-8', 'surrogateescape')).hexdigest(), n=t.count('\n'), head=t[:400]))
        if not v:
            shutil.rmtree(dd, ignore_errors=True)
    out['orig'] = src if any(x['v'] for x in out['res']) else ''
    shutil.rmtree(d, ignore_errors=True)
    return out


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch, seed=chk.seed, res=reserved())
    repo = []
    for dd in ('tests', 'install/examples'):
        p = os.path.join(core.REPO, dd)
        for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if f.endswith('.clara'):
                s = syntax.decode(open(os.path.join(p, f), 'rb').read())
                if syntax.check(s) is None and M_free(s):
                    repo.append(s)
    ctx['repo'] = repo
    bad = [(t, 'X') for t in BADX] + [(t, 'T') for t in BADS] + [(t, 'D') for t in BADD]
    core.rng_for('C19b', chk.seed).shuffle(bad)
    ctx['bad'] = bad
    seen = set()
    items = [('repo', i) for i in range(len(repo))] + [('gen', i) for i in range(chk.n(24, 400))] + [('bad', i) for i in range(chk.n(120, len(bad)))]
    for r in core.pmap(job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        if not r.get('base'):
            chk.note('originals_not_used_' + r['kind'])
            continue
        chk.note('originals_' + r['kind'])
        chk.note('not_decided_because_of_time', r.get('slow', 0))
        for x in r['res']:
            chk.saw(x['h'])
            chk.note('rewritten ' + x['st'])
            chk.note('lines_compiled', x['n'])
            if x['st'] not in seen:
                seen.add(x['st'])
                chk.sample(dict(kind=r['kind'], rewrite=x['st'], source=x['head']))
            if x['v']:
                chk.violation('%s, %s: %s' % (r['kind'], x['st'], x['v']), {'original.clara': r['orig'], 'rewritten.clara': x['src']})
    if not chk.coverage.get('originals_gen'):
        chk.inconclusive.append('no generated program could be used')


def M_free(s):
    return '§' not in s
