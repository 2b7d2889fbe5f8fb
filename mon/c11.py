"""The position of reported errors: planted errors with a known offending token, in random contexts and layouts."""
import os, re, shutil
from . import core, gen, syntax
from .c09 import HELPERS
from .c10 import corpus, mutate, SINK

RULE = ('(a) sources with one or several planted semantic errors (about 150 marked templates; the mark is the token which is wrong) in random surroundings, laid out with random spaces, line breaks, comments, non-ASCII text and '
        'declarations in front: the set of reported file:line:column positions must be exactly the set of marked tokens; (b) malformed sources made by mutation: the first reported position must be that of the first token (or '
        'character) which cannot continue a program according to an independent tokenizer and recogniser, and every reported position must be the start of the token named in the message. One evaluation is one compilation '
        'which reports an error')

M = '§'
# Marked expressions; every one is an error whatever it is used for, and gives no further error around it.
X = ['§hnosuch', '§hnosuch(1)', '§hnosuch.a', '§hnosuch[0]', 'hhi(§hnosuch)', '[§hnosuch]', '[1, §hnosuch]', '(§hnosuch ? 1 : 2)', '(true ? §hnosuch : 2)', '(true ? 1 : §hnosuch)', 'hhi(1).§hnosuch()', 'Hhs(1, "a").§c', 'Hhs(1, "a").a.hhi().§hnosuch()',
     'Hhg(1).§w', 'Hhs(§hnosuch, "a")', '(§hnosuch + 1)', '(1 + §hnosuch)', 'not §hnosuch', '-§hnosuch', 'hhi(hhi(hhi(§hnosuch)))', '[[1], [§hnosuch]]', '[1, 2][§hnosuch]', 'fn() int { return §hnosuch }', 'fn() int = §hnosuch', 'fn() fn() int = fn() int = §hnosuch',
     '(§"a" + 1)', '(1 + §"a")', '(1 * §true)', '(§true - 1)', '(1 << §"b")', '(§"b" >> 1)', '(1 & §true)', '(§true | 1)', '(1 ^ §true)', '(1 / §true)', '(§1 and true)', '(true and §1)', '(true or §"a")', '(§1 or true)', 'not §1', '-§true', '~§"a"',
     '(§1 == true)', '(§"a" == 1)', '(§1 < true)', '(§true < false)', '(§"a" == "a")', '(§"a" >= "b")', '[1, §"a"]', '[1, 2, §true, 3]', '["a", §1]', '(§1 ? 1 : 2)', '(true ? 1 : §"a")', '(true ? "a" : §1)', '[1, 2][§"a"]', '[1, 2][§true]', '5§[0]', '"abc"§[0]', '§[]',
     'hhi(§"a")', 'hhii(1, §"a")', 'hhii(§"a", 1)', 'hhsix(1, 2, 3, 4, 5, §true)', 'hhsix(1, 2, §"a", 4, 5, 6)', 'Hhs(1, §2)', 'Hhs(§"a", "a")', 'Hha(§"a")', 'Hhb("a", §"b")', 'Hhb(§1, 1)', 'Hhg«int»(§"a")', 'Hsome«int»(§"a")', 'hhid«int»(§true)', 'hhpick(1, §"a")', 'hhpick("a", §1)',
     'hhseq«int, string»(1, §2)', 'hharr(§1)', 'hhfn(§1)', 'hhfn(§hhst)', 'hhfn(§hhii)', 'hhopt(§1)', 'Hhf(hhi, §1, Hsome(1))', 'Hhf(hhi, [1], §5)', 'hhap(hhi, §"a")', 'hhid(hhi(§"s"))', 'hhi(hhii(1, §true))', '[hhi(§"a")]',
     'hhid«§hnosuch»(1)', 'hhid«[]§hnosuch»([1])', 'Hhg«hhg«§hnosuch»»(1)', 'fn(q: §hnosuch) int { return 1 }', 'fn() §hnosuch { return 1 }', 'fn(q: []§hnosuch) int { return 1 }', 'fn(q: fn(§hnosuch) int) int { return 1 }', 'fn(q: int, §q: int) int { return 1 }', 'fn() int = §"a"', 'fn() string { return §1 }', 'fn() { return §1 }', 'fn() int { §return }',
     'Hhs(1, "a").b.§hnosuch(1)', '§true.a', '§hhi.a', 'Hhs(1, "a").a.hhi().hhii(§"a")', 'fn(q: hhs) int { return q.§zz }', 'fn(q: hhg«int») string { return q§.v }', 'fn(q: []int) int { return q[§true] }', 'fn(q: int) int { return q + §"a" }', 'fn(q: int) string = §q', 'fn(q: string) bool { return q.hhi2() or §1 }',
     '§4611686018427387904', '§99999999999999999999', '(1 + §0x4000000000000000)', '[1, §4611686018427387904]', 'hhi(§4611686018427387904)', 'hhfn(fn(q: int) int = q + §4611686018427387904)']
X = [x for x in X if 'hhi2' not in x and 'q§.v' not in x]
OVERFLOW = [x for x in X if '46116860' in x or '9999999' in x or '0x4' in x]
X = [x for x in X if x not in OVERFLOW]

# Marked statements
S = ['§hnosuch = 1', 'hv := §hv', 'hv := 1\n§hv := 2', 'hv := 1\nhv = §"a"', 'hv := "a"\nhv = §1', 'hv := Hhs(1, "a")\nhv.a = §"b"', 'hv := Hhs(1, "a")\nhv.§zz = 1', 'hv := [1]\nhv[0] = §"a"', 'hv := [1]\nhv[§"a"] = 1', 'hv := [[1]]\nhv[0][0] = §true', 'hv := [[1]]\nhv[0] = §1',
     'if §1 {\n}', 'if §hnosuch {\n}', 'if false {\n} elseif §"a" {\n}', 'if false {\n} elseif true {\n} elseif §1 {\n} else {\n}', 'while §1 {\n}', 'while §hnosuch {\n}', 'for hi in §1 {\n}', 'for hi in §"a" .. 3 {\n}', 'for hi in 0 .. §"a" {\n}', 'for hi in §hnosuch {\n}', 'for hi in [1] {\n    hi = §"a"\n}',
     'if true {\n    hz := 1\n}\n§hz = 2', 'for hz in 0 .. 2 {\n}\nhhi(§hz)', 'if false {\n    hz := 1\n} else {\n    §hz = 2\n}', 'match §1 {\n    case Hha(hx):\n}', 'match §Hha {\n}', 'match §hnosuch {\n    case Hha(hx):\n}', 'hv := Hha(1)\nmatch §hv {\n    case Hha(hx):\n    case Hhb(hx, hy):\n}', 'hv := Hsome(1)\nmatch §hv {\n    case Hnone():\n}',
     'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case Hhc():\n    case §Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case §Hnosuch():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n    case Hhc():\n    case §Hnone():\n}', 'match Hha(1) {\n    case §Hha():\n    case Hhb(hx, hy):\n    case Hhc():\n}',
     'match Hha(1) {\n    case Hha(hx):\n    case §Hhb(hx):\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, §hx):\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n        hhst(§hx)\n    case Hhb(hx, hy):\n    case Hhc():\n}', 'match Hha(1) {\n    case Hha(hx):\n    case Hhb(hx, hy):\n        hhi(§hx)\n    case Hhc():\n        §hx = 1\n}',
     'hv := fn(a: int) int = a\nhv(§"a")', 'hv := fn(a: int) int = a\nhhst(hv(§true))', 'hv := [hhi]\nhv[0](§"a")', 'hv := Hhg(1)\nhv.v = §"a"', 'hv := fn() int = 1\nhv = §hhst', 'hv := "a"\nhv.§length = 3', 'hv := [1]\nhv.§length = 3', 'hv := §hhov', '§5 = 6', '§"a" = "b"',
     'hv := Hhf(hhi, [1], Hsome(1))\nhv.f(§"a")', 'hv := Hhf(hhi, [1], Hsome(1))\nhv.g[§"a"] = 1', 'hv := fn() {\n    hhi(§hnosuch)\n}', 'hv := fn(q: int) fn() int {\n    return fn() int {\n        return q + §"a"\n    }\n}', 'hv := 1\nhw := fn() int {\n    hv = §"a"\n    return hv\n}',
     'hhi(§hlate)\nhlate := 1', 'return §1', 'hhn(§"a")', '§hnosuch1 = 1\n§hnosuch2 = 2', 'hhi(§"a")\nhhi(§"b")\nhhst(§1)', 'hv := §hnosuch1 + §hnosuch2', 'if true {\n    hhi(§"a")\n} else {\n    hhi(§true)\n}']

# Marked declarations by stage of the compiler (errors of an earlier stage hide those of later ones)
D1 = ['fn hbad@() {\n}\nfn §hbad@() {\n}', 'struct hbad@ {\n    a: int\n}\nstruct §hbad@ {\n    b: int\n}', 'enum hbad@ {\n    Hbb@()\n}\nenum §hbad@ {\n    Hcc@()\n}', 'fn §hhi(a: int) int = a', 'fn §println(s: string) {\n}', 'struct §hhs {\n    q: int\n}', 'enum hbad@«T, §T» {\n    Hqq@(a: T)\n}', 'struct hbad@«T, §T» {\n    a: T\n}', 'struct §option {\n    a: int\n}']
D2 = ['fn hbad@(a: §hnosuch) {\n}', 'fn hbad@() §hnosuch {\n    return 1\n}', 'fn hbad@(a: []§hnosuch) {\n}', 'fn hbad@(a: fn(§hnosuch) int) {\n}', 'fn hbad@(a: fn(int) §hnosuch) {\n}', 'fn hbad@(a: hhg«§hnosuch») {\n}', 'fn hbad@(a: int, §a: int) {\n}', 'fn §hbad@() int {\n}', 'fn §hbad@(a: int) int {\n    if a == 1 {\n        return 1\n    }\n}',
      'fn hbad@(a: int, b: string, c: §hnosuch, d: int) {\n}', 'struct hbad@ {\n    a: §hnosuch\n}', 'struct hbad@ {\n    a: int\n    b: []§hnosuch\n    c: int\n}', 'struct hbad@ {\n    a: int\n    §a: int\n}', 'enum hbad@ {\n    Hqq@(a: §hnosuch)\n}', 'enum hbad@ {\n    Hqq@()\n    §Hqq@()\n}', 'enum hbad@ {\n    Hqq@(a: int)\n}\nfn §Hqq@(a: string) int = 1', 'enum hbad@ {\n    Hpp@()\n    Hqq@(a: int)\n}\nfn §Hqq@(a: int) {\n}', 'enum hbad@ {\n    Hqq@(a: int, §a: int)\n}', 'fn hbad@«T, §T»(a: T) T = a',
      'fn §hbad@(a: int, b: int, c: int, d: int, e: int, f: int, g: int) {\n}', 'enum hbad@ {\n    Hpp@()\n    §Hqq@(a: int, b: int, c: int, d: int, e: int, f: int)\n}', 'struct hbad@ {\n    a: §hnosuch1\n    b: §hnosuch2\n}']
D3 = ['fn hbad@(a: §hhg«int, int») {\n}', 'fn hbad@(a: §hhs«int») {\n}', 'fn hbad@(a: §int«int») {\n}', 'fn hbad@(a: []§hho«int, int») {\n}', 'struct hbad@ {\n    a: §hhg«int, string»\n}', 'struct hbad@ {\n    a: §hhs«int»\n}', 'fn hbad@() []§hhg«int, int» {\n    return [Hhg(1)]\n}', 'enum hbad@ {\n    Hqq@(a: §hhg«int, int»)\n}']
D4 = ['struct §Hbad@ {\n    a: int\n}', 'struct hbad@ {\n    a: int\n}\nfn §Hbad@(a: int) int = a', 'struct §hbad@ {\n    a: int\n    b: int\n    c: int\n    d: int\n    e: int\n    f: int\n    g: int\n}'] + ['fn hbad@() {\n    hv := %s\n}' % x for x in OVERFLOW] + ['fn hbad@() int = §4611686018427387904']
D5 = ['fn hbad@() int = §"a"', 'fn hbad@(a: string) int = §a', 'fn hbad@() string {\n    return §1\n}', 'fn hbad@() {\n    return §1\n}', 'fn hbad@«T»(a: T) int = §a', 'fn hbad@«T»(a: T) int = §a + 1', 'fn hbad@«T»(a: T) int = hhi(§a)', 'fn hbad@«A, B»(a: A, b: B) A = true ? a : §b', 'fn hbad@«T»(a: T) T {\n    a = §1\n    return a\n}', 'fn hbad@«A, B»(f: fn(A) B, b: B) B = f(§b)', 'fn hbad@() fn(int) int = §hhst']
STAGES = [('redeclared', D1), ('types', D2), ('instances', D3), ('constructors', D4), ('check', D5)]

CTX_S = ['%s', 'if true {\n%s\n}', 'if false {\n    hhi(1)\n} else {\n%s\n}', 'while false {\n%s\n}', 'for hk in [1, 2] {\n%s\n}', 'for hk in 0 .. 3 {\n%s\n}', 'match Hha(1) {\n    case Hha(hk):\n    case Hhb(hk, hl):\n%s\n    case Hhc():\n        hhi(2)\n}', 'hkf := fn() {\n%s\n}', 'hkf := fn(hp: int) fn() nothing {\n    return fn() {\n%s\n    }\n}',
         'hk := "é漢字🧹" hhi(3) %s', 'hhst("«ñ»") %s']
CTX_X = ['hq := %s', 'hhid(%s)', 'hq := [%s]', 'hq := true ? %s : 1', 'hq := hhseq("é", %s)', 'if hhb(%s) {\n}', 'hq := fn() {\n    hr := %s\n}', 'hq := Hhg(%s)', 'hq := hhseq(1, hhseq("漢", %s))', 'hq := [1][%s]', 'while hhb(%s) {\n}', 'for hq in 0 .. %s {\n}', 'hq := [1]\nhq[0] = %s', 'println(%s)', 'match hhseq(%s, Hhc()) {\n    case Hha(hk):\n    case Hhb(hk, hl):\n    case Hhc():\n}']
CTX_ANY = [c for c in CTX_X if c.startswith('hq := ') and '?' not in c and '[1]' not in c or 'hhseq' in c or 'hhid' in c]
FILLER = ['fn hfill@() int = @', 'struct hfs@ {\n    a: int\n    b: []string\n}', 'enum hfe@ {\n    Hfc@(é: int)\n    Hfd@()\n}', 'fn hfö@(ä: int, ß: string) {\n    println(ß) // «é»\n    hü := "漢字"\n}', '// comment', '// a */ b', '//* é', '// a // b \\', '// é漢 "quoted" fn broken( {', '', '', '#[Unknown]\nfn hfa@() {\n}']


def contexted(r, text):
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        text = r.choice(CTX_S).replace('%s', text)
        for v in ('hk', 'hl', 'hkf', 'hp'):
            text = re.sub(r'\b%s\b' % v, '%s%d' % (v, r.randrange(10 ** 12)), text)
    return text


def decl(r, n, stage):
    if stage != 'check':
        return r.choice(dict(STAGES)[stage]).replace('@', str(n))
    k = r.random()
    if k < .12:
        return r.choice(D5).replace('@', str(n))
    t = r.choice(S)
    if k < .6:
        x = r.choice(X)
        t = r.choice(CTX_ANY if 'fn(' in x else CTX_X).replace('%s', x)       # a function literal has its type whatever is wrong inside
    return 'fn hbad%d() {\n%s\n}' % (n, contexted(r, t))


SEP = ['', ' ', '\r', '  ', '     ', '\n', '\n\n', '\r\n', ' \n ', '\n        ', ' // c\n', '\n// é漢字 "x\n  ', '//\n', '        \n', '// a */ b\n', ' //* x\n', '// a // b \\\n ', '// \\n "\n', '// {[( fn\t »\n']


def layout(r, src, wild):
    """Lays src out anew. Returns (text, positions of the marks)."""
    marks = []
    clean, p = [], 0
    off = 0
    for i, c in enumerate(src):
        if c == M:
            marks.append(i - len(marks))
    src = src.replace(M, '')
    toks = syntax.lex(src)
    want = set(marks)
    out, line, col, pos, last = [], 1, 1, [], 0

    def put(s):
        nonlocal line, col
        out.append(s)
        n = s.count('\n')
        if n:
            line += n
            col = len(s) - s.rfind('\n')
        else:
            col += len(s)
    for t in toks:
        gap = src[last:t.i]
        if wild and r.random() < wild:
            s = ''.join(r.choice(SEP) for _ in range(r.choice([1, 1, 2])))
            if gap and not s:
                s = ' '
            # words run into each other, and operators may combine, unless something is between them
            gap = s if s or not gap else gap
            if gap.startswith('/') and last and src[last - 1] == '/':
                gap = ' ' + gap
        put(gap)
        if t.i in want and t.k != 'eof':
            pos.append((line, col))
        put(src[t.i:t.j])
        last = t.j
    put(src[last:])
    assert len(pos) == len(want), (src, pos, want)
    return ''.join(out), sorted(set(pos))


POS = re.compile(r'^(.*?\.clara):(\d+):(\d+):(.*)$', re.S)


def entries(out):
    """Reported errors: [(file, line, col, message)] or None if an entry has no position."""
    res = []
    for l in core.error_lines(out):
        m = POS.match(l)
        if not m:
            return None
        res.append((m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)))
    return res


def sem_case(r, i):
    stage = r.choice(['check'] * 8 + ['types'] * 3 + ['redeclared', 'instances', 'constructors', 'constructors'])
    n = r.choice([1, 1, 1, 2, 3, 5, 14, 40])
    ds, used = [], set()
    for k in range(n):
        d = decl(r, k, stage)
        shared = re.findall(r'^(?:fn|struct|enum) ' + M + r'(\w+)', d, re.M)
        if any(s in used for s in shared):
            continue
        used.update(shared)
        ds.append(d)
    parts = list(ds)
    for k in range(r.choice([0, 0, 1, 3, 8])):
        parts.insert(r.randrange(len(parts) + 1), r.choice(FILLER).replace('@', str(k)))
    parts.insert(r.randrange(len(parts) + 1), 'fn main() {\n}')
    # redeclarations are reported at the later declaration: helpers first
    return stage, HELPERS + '\n'.join(parts) + '\n'


def judge_sem(c, path, want):
    if c.timeout or core.crashed(c):
        return 'the compiler crashed or did not end: %s' % c.out[-300:].decode('utf-8', 'replace')
    es = entries(c.out)
    if es is None:
        return 'an error without a position: %s' % core.error_lines(c.out)
    if any(os.path.realpath(e[0]) != os.path.realpath(path) for e in es):
        return 'an error names another file: %s' % es
    got = sorted(set((e[1], e[2]) for e in es))
    if got != want:
        return 'errors reported at %s, offending tokens are at %s' % (got, want)
    return None


def job(ctx, it):
    kind, key, n = it
    r = core.rng_for('C11', ctx['seed'], kind, key)
    d = os.path.join(ctx['scratch'], 'j%s-%s' % (kind, key))
    os.makedirs(d)
    res = []
    for i in range(n):
        shutil.rmtree(os.path.join(d, 'o'), ignore_errors=True)
        name = r.choice(['p', 'p', 'a b', 'pé', 'x.y', 'p:1:2'])
        path = os.path.join(d, name + '.clara')
        if kind == 'sem':
            stage, marked = sem_case(r, i)
            src, want = layout(r, marked, r.choice([0, .05, .3, .8]))
            c = ctx['comp'].compile_src(src, d, name, cpu=30)
            v = judge_sem(c, path, want)
            res.append(dict(k=stage, v=v, src=src, out=c.out[-3000:], n=len(want)))
            continue
        if kind == 'lexerr':
            # a stray character at a random place between tokens
            src = r.choice(ctx['bases'])
            toks = syntax.lex(src)
            t = r.choice(toks)
            src = src[:t.i] + r.choice(['', ' ', '\n', ' "é漢" ', '// é\n  ']) + r.choice(['$', '@', ';', '`', '%', '\t', '€', "'", '"\\q"', '"abc\n']) + src[t.i:]
        else:
            src = mutate(r, r.choice(ctx['bases']) if r.random() < .6 else r.choice(ctx['gens']), ctx['bases'])[1]
        try:
            src = syntax.decode(src.encode('utf-8', 'surrogateescape'))
        except UnicodeEncodeError:
            continue
        bad = syntax.check(src)
        if not bad:
            continue
        c = ctx['comp'].compile_src(src, d, name, cpu=30)
        v = None
        es = entries(c.out)
        if c.timeout or core.crashed(c):
            continue        # not a matter of positions
        if es is None:
            v = 'an error without a position: %s' % core.error_lines(c.out)
        elif es:
            first = es[0]
            w = (bad[1].line, bad[1].col) if bad[0] == 'lex' else (bad[1].tok.line, bad[1].tok.col)
            if any(os.path.realpath(e[0]) != os.path.realpath(path) for e in es):
                v = 'an error names another file: %s' % es
            elif bad[0] == 'lex' and bad[1].kind != 'char':
                # position of a broken literal: somewhere in it
                if first[1] != w[0] or first[2] > w[1]:
                    v = 'broken literal ends at %s, reported at %s' % (w, first[1:])
            elif (first[1], first[2]) != w:
                v = 'the first error is at %s, reported at %s' % (w, first[1:])
            elif bad[0] == 'syntax':
                starts = {(t.line, t.col): t for t in syntax.lex(src)}
                for e in es:
                    t = starts.get((e[1], e[2]))
                    m = re.match(r" syntax error, Unexpected '(.*)', expected: ", e[3], re.S)
                    if not t:
                        v = 'no token starts at %s' % (e[1:],)
                    elif t.k != 'eof' and t.k != 'str' and m and '\n' not in t.v and m.group(1) != t.v:
                        v = 'token at %d:%d is %r, reported %s' % (e[1], e[2], t.v, e[3])
        res.append(dict(k=bad[0], v=v, src=src, out=c.out[-3000:], n=len(es or [])))
    shutil.rmtree(d, ignore_errors=True)
    return dict(kind=kind, res=res)


def sweep(ctx, it):
    """Every template once, plain."""
    what, text = it
    if what == 'X':
        src = HELPERS + 'fn main() {\n    hq := ' + text + '\n}\n'
    elif what == 'S':
        src = HELPERS + 'fn main() {\n' + text + '\n}\n'
    else:
        src = HELPERS + text.replace('@', '') + '\nfn main() {\n}\n'
    d = os.path.join(ctx['scratch'], 's' + core.hashlib.sha1(text.encode()).hexdigest())
    src, want = layout(core.rng_for('x'), src, 0)
    c = ctx['comp'].compile_src(src, d, 'p', cpu=30)
    v = judge_sem(c, os.path.join(d, 'p.clara'), want)
    shutil.rmtree(d, ignore_errors=True)
    return dict(text=text, v=v, src=src, out=c.out[-2000:])


def run(chk):
    b = chk.build()
    ctx = dict(comp=core.Compiler(b), scratch=chk.scratch, seed=chk.seed)
    ctx['bases'] = [s for _, s in corpus(chk) if syntax.check(s) is None and len(s) < 6000] + [SINK] * 5
    ctx['gens'] = [gen.make(core.rng_for('c11g', chk.seed, i), gen.Prof(funcs=3, stmts=3, nodes=12, depth=3, nest=2, structs=2, enums=2)).source() for i in range(16)]
    for r in core.pmap(sweep, ctx, [('X', x) for x in X] + [('S', x) for x in S] + [('D', x) for _, l in STAGES for x in l], chunksize=4):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw(r['text'])
        chk.note('templates')
        if r['v']:
            chk.violation('%s: %s' % (r['text'].replace('\n', '; '), r['v']), {'program.clara': r['src'], 'compiler.txt': r['out']})
    items = [('sem', i, 20) for i in range(chk.n(60, 800))] + [('syn', i, 25) for i in range(chk.n(60, 600))] + [('lexerr', i, 20) for i in range(chk.n(10, 100))]
    for r in core.pmap(job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for x in r['res']:
            chk.saw(core.hashlib.sha1(x['src'].encode('utf-8', 'surrogateescape')).hexdigest())
            chk.note('compilations_' + x['k'])
            chk.note('positions_compared', x['n'])
            if x['n'] > 1:
                chk.note('sources_with_several_errors')
            chk.sample(dict(stage=x['k'], errors=[l[-120:] for l in core.error_lines(x['out'])][:3]))
            if x['v']:
                chk.violation('%s (%s): %s' % (r['kind'], x['k'], x['v']), {'program.clara': x['src'], 'compiler.txt': x['out']})
