"""Histories: programs whose recorded operations and results are checked offline against a model."""
import hashlib, os, shutil
from . import core, diff
from .c06 import mon_check, stats, WRAP
from .lang import strlit


class Hist:
    """A program under construction together with the events the model predicts."""

    def __init__(self, name):
        self.name = name
        self.decls, self.body, self.exp = [], [], []
        self.rc = 0
        self.args, self.env = [], None
        self.ops = 0
        self.norm = None
        self.kinds = {}

    def decl(self, s):
        self.decls.append(s)

    def op(self, kind, stmt, *events):
        self.ops += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.body.append(stmt)
        for e in events:
            self.exp.append(e if isinstance(e, bytes) else str(e).encode())

    def line(self, stmt):
        self.body.append(stmt)

    def source(self):
        out = '\n'.join(self.decls) + '\nfn main() {\n'
        for s in self.body:
            for l in s.split('\n'):
                out += '    ' + l + '\n'
        return out + '}\n'

    def expected(self):
        return b''.join(e + b'\n' for e in self.exp)


def sort_blocks(out):
    """Lines between '[' and ']' are an unordered collection."""
    res, blk = [], None
    for l in out.split(b'\n'):
        if l == b'[' and blk is None:
            blk = []
        elif l == b']' and blk is not None:
            res += [b'['] + sorted(blk) + [b']']
            blk = None
        elif blk is not None:
            blk.append(l)
        else:
            res.append(l)
    return b'\n'.join(res + (blk or []))


def run_hist(ctx, h, d):
    """Compiles and runs one history. Returns (violation, files for replay, monitor statistics)."""
    src, exp = h.source(), h.expected()
    c = ctx['comp'].compile_src(src, d)
    files = {'program.clara': src, 'expected.txt': exp}
    if c.timeout == 'wall':
        raise core.Inconclusive('compiler ran into the wall clock watchdog')
    if c.rc != 0 or not c.exe:
        return 'valid program is not compiled (status %s): %s' % (c.rc, c.out[-1500:].decode('utf-8', 'replace')), files, {}
    r = core.run_exe(c.exe, args=h.args, env=h.env)
    if r.timeout == 'wall':
        raise core.Inconclusive('program ran into the wall clock watchdog')
    files['actual.txt'] = r.out + b'\n--- stderr\n' + r.err
    if ctx.get('heap'):
        if b'MON FAULT' in r.err or b'MON INCONCLUSIVE' in r.err:
            return mon_check(r), files, {}
    norm = h.norm or (lambda x: x)
    keep = r.out
    r.out = norm(keep)
    v = diff.describe(norm(exp), r)
    if v is None and r.rc != h.rc:
        v = 'trace is right but exit status is %s, expected %s' % (r.rc, h.rc)
    return v, files, stats(r.err) if ctx.get('heap') else {}


def job(ctx, item):
    h = ctx['make'](ctx, item)
    if h is None:
        return None
    d = os.path.join(ctx['scratch'], 'h%s' % hashlib.sha1(repr(item).encode()).hexdigest()[:12])
    v, files, st = run_hist(ctx, h, d)
    shutil.rmtree(d, ignore_errors=True)
    res = dict(name=h.name, item=item, v=v, ops=h.ops, kinds=h.kinds, events=len(h.exp), mon=st,
               key=hashlib.sha1(files['program.clara'].encode('utf-8', 'surrogateescape')).hexdigest())
    if v:
        res['files'] = files
    res['sample'] = dict(program=files['program.clara'][-700:], events=[e.decode('utf-8', 'replace')[:200] for e in h.exp[:8]])
    return res


def explore(chk, make, items, heap=True, ctx=None, per_op=True):
    ctx = ctx or {}
    if 'comp' not in ctx:
        b = chk.build(extra_c=['heapmon.c'] if heap else [])
        ctx.update(comp=core.Compiler(b, WRAP if heap else ''))
    ctx.update(scratch=chk.scratch, make=make, seed=chk.seed, heap=heap, prop=chk.prop)
    kinds = chk.coverage.setdefault('operations', {})
    for r in core.pmap(job, ctx, items):
        if r is None:
            continue
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        for k in range(max(1, r['ops'] if per_op else 1)):
            chk.saw('%s#%d' % (r['key'], k), r['ops'] > 0)
        chk.note('histories'); chk.note('events_compared', r['events'])
        for k, n in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + n
        for k in ('allocs', 'frees'):
            if k in r['mon']:
                chk.note('monitored_' + k, r['mon'][k])
        chk.sample(r['sample'], 3)
        if r['v']:
            chk.violation('%s %s: %s' % (r['name'], r['item'], r['v']), r['files'])
    return ctx
