"""Arguments and environment."""
import os, shutil
from . import core, hist
from .c06 import WRAP, mon_check
from .c12 import dump, PRE

RULE = ('one observer program, run with random argument vectors and environments (no, one, many and very long values, empty values, every byte but NUL, "=" in values, leading dashes, '
        'option-like arguments, duplicates), prints every argument and variable byte by byte; heap monitored. A second program which ignores its arguments must behave the same with any. '
        'One evaluation is one process run')

SRC = PRE + '''
fn main() {
    args := getRuntime().args
    println(args.length)
    for a in args {
        ds(a)
    }
    println(getRuntime().env.size)
    println("[")
    getRuntime().env.foreach(fn(k: string, v: string) {
        print("K ")
        print(k.length)
        for i in 0 .. k.length {
            print(" ")
            print(k.byte(i))
        }
        print(" V ")
        ds(v)
    })
    println("]")
    ds(getRuntime().env.orElse("FIXED", "<none>"))
    ds(getRuntime().env.orElse("MISSING", "<none>"))
    for a in args {
        cs(a)
    }
}
'''
PLAIN = '''
fn main() {
    s := ""
    for i in 0 .. 40 {
        s = s.append(i.toString())
    }
    println(s)
    m := NewHashMap«int, string»(fn(i: int) int = i, fn(a: int, b: int) bool = a == b)
    for i in 0 .. 30 {
        m.put(i, s.Substring(i, i + 3))
    }
    println(m.orElse(7, "?"))
    println(m.size)
}
'''


def value(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 8, 15, 16, 17, 31, 33, 100]) if n is None else n
    k = rng.randrange(5)
    if k == 0:
        return bytes(rng.randrange(1, 256) for _ in range(n))
    if k == 1:
        return ''.join(rng.choice('aé€𝄞 =') for _ in range(n)).encode()
    if k == 2:
        return bytes(rng.choice(b'=a ') for _ in range(n))
    if k == 3:
        return bytes(rng.choice([1, 9, 10, 13, 27, 127, 128, 255, 32]) for _ in range(n))
    return bytes(rng.choice(b'abcXYZ019_./') for _ in range(n))


FLAGS = [b'-', b'--', b'-x', b'--help', b'--foo=bar', b'-1', b'--version', b'-abc', b'---', b'--=', b'-h', b'--unknown', b'-=', b'- a', b'-\xff', b'-W', b'-o', b'+x', b'-:']


def vector(rng, kind):
    if kind == 'none':
        args = []
    elif kind == 'many':
        args = [value(rng, rng.randint(0, 6)) for _ in range(rng.choice([50, 200, 400]))]
    elif kind == 'long':
        args = [value(rng, rng.choice([1000, 5000, 60000])) for _ in range(rng.randint(1, 3))]
    elif kind == 'flags':
        args = [rng.choice(FLAGS) if rng.random() < .6 else value(rng) for _ in range(rng.randint(1, 8))]
    else:
        args = [value(rng) for _ in range(rng.randint(1, 10))]
    # anything which getopt could read as the GC debug option belongs to C20
    args = [a if not (a.startswith(b'-') and (not a.startswith(b'--') and b'g' in a or a.startswith(b'--g'))) else b'x' + a for a in args]
    env = {}
    for _ in range(rng.choice([0, 1, 3, 10, 40 if kind != 'many' else 120])):
        k = rng.choice([value(rng, rng.randint(1, 12)), b'N%d' % rng.randrange(200), b'PATH', b'A_VERY_LONG_NAME_OF_A_VARIABLE'])
        k = k.replace(b'=', b'_') or b'E'
        env[k] = value(rng, None if kind != 'long' else rng.choice([0, 10, 3000]))
    if rng.random() < .5:
        env[b'FIXED'] = value(rng)
    # variables which change the dynamic loader or libc, not the program
    for k in list(env):
        if k.startswith((b'LD_', b'GLIBC', b'MALLOC', b'LC_', b'LANG')):
            del env[k]
    return args, env


def job(ctx, item):
    kind, seed = item
    rng = core.rng_for('C15', kind, seed, ctx['seed'])
    args, env = vector(rng, kind)
    exe = ctx['exe']
    r = core.run_proc([exe] + args, env=env)
    full = [exe.encode()] + args
    exp = [b'%d' % len(full)] + [dump(a) for a in full] + [b'%d' % len(env), b'[']
    exp += [b'K ' + dump(k) + b' V ' + dump(v) for k, v in env.items()] + [b']', dump(env.get(b'FIXED', b'<none>')), dump(b'<none>')] + full
    exp = hist.sort_blocks(b''.join(x + b'\n' for x in exp))
    v = None
    if b'MON FAULT' in r.err:
        v = mon_check(r)
    elif hist.sort_blocks(r.out) != exp or r.rc != 0:
        from . import diff
        r.out = hist.sort_blocks(r.out)
        v = diff.describe(exp, r) or 'exit status %s' % r.rc
    if v is None:
        r2 = core.run_proc([ctx['plain']] + args, env=env)
        if r2.out != ctx['plain_out'] or r2.rc != 0 or r2.err != ctx['plain_err']:
            v = 'a program which ignores its arguments behaves differently: %r instead of %r, status %s' % (r2.out[-200:], ctx['plain_out'][-200:], r2.rc)
    return dict(item=item, v=v, args=args, env=env, n=len(args), e=len(env), b=sum(map(len, args)), out=r.out)


def run(chk):
    b = chk.build(extra_c=['heapmon.c'])
    comp = core.Compiler(b, WRAP)
    ctx = dict(scratch=chk.scratch, seed=chk.seed)
    c = comp.compile_src(SRC, os.path.join(chk.scratch, 'obs'), 'observer')
    c2 = core.Compiler(b).compile_src(PLAIN, os.path.join(chk.scratch, 'plain'), 'plain')
    if not c.exe or not c2.exe:
        chk.violation('observer program is not compiled: %s' % (c.out + c2.out)[-1000:].decode('utf-8', 'replace'), {'program.clara': SRC})
        return
    ctx['exe'], ctx['plain'] = c.exe, c2.exe
    r = core.run_proc([c2.exe], env={})
    ctx['plain_out'], ctx['plain_err'] = r.out, r.err
    s = ''.join(str(i) for i in range(40))
    if r.rc or r.out != (s + '\n' + s[7:10] + '\n30\n').encode():
        chk.violation('program without arguments does not do what it should: %r' % r, {'program.clara': PLAIN})
    kinds = [('none', 12), ('mixed', chk.n(150, 3000)), ('flags', chk.n(120, 2000)), ('many', chk.n(12, 100)), ('long', chk.n(16, 150))]
    items = [(k, i) for k, n in kinds for i in range(n)]
    # with GC logging switched on by an argument, the arguments are still what was given
    from .c20 import args_job
    for r in core.pmap(args_job, dict(ctx, comp=core.Compiler(b)), list(range(chk.n(10, 60)))):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for x in r['res']:
            chk.saw('gc ' + x['o'])
            chk.note('runs_with_gc_logging')
            if x['v']:
                chk.violation('with GC logging, arguments %s: %s' % (x['o'], x['v']), {'program.clara': r['src']})
    for r in core.pmap(job, ctx, items):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        chk.saw((tuple(r['args']), tuple(sorted(r['env'].items()))), r['n'] or r['e'])
        chk.note('arguments_passed', r['n']); chk.note('variables_passed', r['e']); chk.note('argument_bytes', r['b'])
        if r['n'] and r['b'] < 300:
            chk.sample(dict(args=[repr(a) for a in r['args']], env={repr(k): repr(v)[:60] for k, v in list(r['env'].items())[:4]}))
        if r['v']:
            chk.violation('%s: %s' % (r['item'], r['v']), {'program.clara': SRC, 'args.txt': repr(r['args']), 'env.txt': repr(r['env']), 'actual.txt': r['out']})
