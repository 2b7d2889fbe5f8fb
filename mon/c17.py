"""File reading with injected system call failures."""
import errno, os, re, shutil
from . import core
from .c06 import WRAP, mon_check

LEVEL = 'fault_enumeration'
RULE = ('one reader program runs over files of many sizes and contents, and read/seek/size scripts; then every system call of the run (open, each seek, read) is failed in turn with every '
        'error code 1..40 and some others through a shim; real failures (missing file, file as directory, name too long, symlink loop, directory) are added. '
        'Oracle: exact bytes, size and position, or an error result with the injected code and a description with the cause (asm-generic/errno-base.h) and path. '
        'One evaluation is one process run')

SRC = '''
fn dump(b: string) {
    print("bytes ")
    println(b.length)
    fflush(0)
    write(1, b, b.length)
    println("")
}
fn fail(e: error) {
    print("error ")
    println(e.err)
    println(e.describe())
    println("end")
}
fn nums(r: result«int, error», what: string) {
    match r {
        case Ok(v):
            print(what)
            print(" ")
            println(v)
        case Err(e):
            fail(e)
    }
}
fn all(f: file) {
    monOp()
    nums(f.size(), "size")
    monOp()
    nums(f.seek(0, 0), "pos")
    monOp()
    match f.readAll() {
        case Ok(s): dump(s)
        case Err(e): fail(e)
    }
    monOp()
    nums(f.seek(0, 1), "pos")
    monOp()
    nums(f.size(), "size")
    monOp()
    nums(f.seek(0, 1), "pos")
}
fn some(f: file, off: int, n: int, cap: int) {
    monOp()
    nums(f.seek(off, 0), "pos")
    monOp()
    nums(f.size(), "size")
    monOp()
    b := Bytes(cap)
    match f.read(b, n) {
        case Some(e): fail(e)
        case None(): dump(b.toString())
    }
    monOp()
    nums(f.size(), "size")
    monOp()
    nums(f.seek(0, 1), "pos")
    monOp()
    nums(f.seek(0 - 1, 0), "pos")
}
fn main() {
    a := getRuntime().args
    match open(a[1]) {
        case Ok(f):
            println("opened ".append(f.path))
            if a.length > 2 {
                some(f, atoll(a[2]), atoll(a[3]), atoll(a[4]))
            } else {
                all(f)
            }
        case Err(e):
            fail(e)
    }
}
#[RawValues]
fn atoll(s: string) int
#[RawValues]
fn write(fd: int, s: string, n: int) int
#[RawValues]
fn monOp() nothing
#[RawValues]
fn fflush(f: int) int
'''


def causes():
    res = {}
    try:
        for l in open('/usr/include/asm-generic/errno-base.h'):
            m = re.match(r'#define\s+\w+\s+(\d+)\s+/\*\s*(.*?)\s*\*/', l)
            if m:
                res[int(m[1])] = m[2]
    except OSError:
        pass
    return res


CAUSES = causes()


def err(code, path):
    cause = CAUSES.get(code, 'Unknown error code: %d' % code)
    return [b'error %d' % code, cause.encode() + b':', b' - ' + path, b'end']


def segments(log):
    """Calls of each operation: the first segment belongs to open."""
    segs = [[]]
    for l in log:
        if l == b'OP':
            segs.append([])
        else:
            segs[-1].append(l.split())
    return segs


def model(path, data, script, log):
    """Expected output of one run. Which operation a fault hit, and where it left the file position, is taken from the log of calls."""
    segs = segments(log)
    out = []
    pos = 0

    def failed(seg):
        for c in seg:
            if c[0] == b'FAULT':
                return int(c[3])
        return None

    if failed(segs[0]) is not None:
        return err(failed(segs[0]), path)
    out.append(b'opened ' + path)
    if script is None:
        ops = [('size',), ('seek', 0, 0), ('all',), ('tell',), ('size',), ('tell',)]
    else:
        off, n, cap = script
        ops = [('seek', off, 0), ('size',), ('read', n, cap), ('size',), ('tell',), ('seek', -1, 0)]
    for k, op in enumerate(ops):
        seg = segs[k + 1] if k + 1 < len(segs) else []
        f = failed(seg)
        if op[0] == 'seek' and op[1] < 0 and f is None:
            f = errno.EINVAL
        if f is not None:
            out.extend(err(f, path))
            for c in seg:
                if c[1] == b'lseek' and c[0] == b'CALL' and int(c[4][4:]) >= 0:
                    pos = int(c[4][4:])
                elif c[1] == b'read' and c[0] == b'CALL':
                    pos += max(0, int(c[3][4:]))
            continue
        if op[0] == 'size':
            out.append(b'size %d' % len(data))
        elif op[0] == 'seek':
            pos = op[1]
            out.append(b'pos %d' % pos)
        elif op[0] == 'tell':
            out.append(b'pos %d' % pos)
        elif op[0] == 'all':
            if pos != 0:
                return None     # the seek failed: not specified
            out += [b'bytes %d' % len(data), data]
            pos = len(data)
        else:
            n, cap = op[1:]
            if n > cap:
                out.extend([b'error -1', b'Unknown error code: -1:', b' - buffer is too small for requested read size', b'end'])
            else:
                b = data[pos:pos + n]
                pos += len(b)
                out += [b'bytes %d' % cap, b + bytes(cap - len(b))]
    return out


class Sparse:
    def __len__(self):
        return (5 << 30) + 7

    def __getitem__(self, sl):
        a, b = sl.start or 0, min(sl.stop, len(self))
        m = {i: c for i, c in enumerate(b'start')}
        m.update({(5 << 30) + 2 + i: c for i, c in enumerate(b'enddd')})
        return bytes(m.get(i, 0) for i in range(a, b))


def job(ctx, item):
    path, data, script, fault, real = item
    args = [path] + (['%d' % x for x in script] if script else [])
    env = dict(core.RUN_ENV)
    if fault:
        env['IOFAULT'] = '%s:%d:%d' % fault
    r = core.run_exe(ctx['exe'], args=args, env=env)
    calls = [l for l in r.err.split(b'\n') if l.startswith((b'CALL ', b'FAULT ')) or l == b'OP']
    exp = err(real, path) if real else model(path, data, script, calls)
    calls = [l for l in calls if l != b'OP']
    r.out = r.out.replace(b'Bad file descriptor', b'Bad file number')
    if exp is None:
        return dict(item=item, v=mon_check(r) if b'MON FAULT' in r.err else None, unused=True, calls=calls)
    exp = b'\n'.join(exp) + b'\n'
    v = None
    if b'MON FAULT' in r.err:
        v = mon_check(r)
    elif r.out != exp or r.rc != 0:
        k = next((i for i in range(min(len(exp), len(r.out))) if exp[i] != r.out[i]), min(len(exp), len(r.out)))
        v = 'output differs at byte %d: %r instead of %r, status %s' % (k, r.out[max(0, k - 60):k + 80], exp[max(0, k - 60):k + 80], r.rc)
    elif fault and not any(c.startswith(b'FAULT') for c in calls):
        v = None
        return dict(item=item, v=None, unused=True, calls=calls)
    return dict(item=item, v=v, calls=calls, out=r.out, err=r.err)


def run(chk):
    if not CAUSES:
        chk.assumptions.append('asm-generic/errno-base.h is not installed')
        raise core.Inconclusive('no errno-base.h')
    b = chk.build(extra_c=['heapmon.c', 'iofault.c'])
    comp = core.Compiler(b, WRAP + ',--wrap=open,--wrap=lseek,--wrap=read')
    c = comp.compile_src(SRC, os.path.join(chk.scratch, 'c'))
    if not c.exe:
        chk.violation('program is not compiled: %s' % c.out[-1500:].decode('utf-8', 'replace'), {'program.clara': SRC})
        return
    rng = core.rng_for('C17', chk.seed)
    d = os.path.join(chk.scratch, 'files')
    os.makedirs(d)
    items = []
    files = []
    names = [b'a', b'with space', 'ünï·€'.encode(), b'x' * 200, b'-dash', b'a%sb%d', b'\xff\xfe\x01', b'quote"\\', b'new\tline']
    for k, n in enumerate([0, 1, 2, 7, 8, 9, 15, 16, 17, 255, 256, 4095, 4096, 4097, 10000, 65537] + chk.n([200000], [200000, 1 << 20, 3000000])):
        name = names[k % len(names)] + b'%d' % k
        kind = rng.randrange(4)
        data = bytes(rng.randrange(256) for _ in range(min(n, 300)))
        data = (data * (n // 300 + 1))[:n] if kind else bytes(n)
        if kind == 2:
            data = (b'line of text\n' * (n // 13 + 1))[:n]
        p = os.path.join(d.encode(), name)
        open(p, 'wb').write(data)
        files.append((p, data))
        items.append((p, data, None, None, None))
    for p, data in files:
        if len(data) > 5000:
            continue
        for _ in range(chk.n(3, 12)):
            off = rng.choice([0, 1, len(data), len(data) + 5, rng.randint(0, len(data)), (1 << 31) - 1, 1 << 31, 0xffffffff, 1 << 32, (1 << 40) + 3])
            cap = rng.choice([0, 1, 8, len(data), rng.randint(0, 300)])
            n = rng.choice([cap, cap, max(0, cap - 1), 0, cap + 1])
            items.append((p, data, (off, n, cap), None, None))
    # a sparse file which is larger than 32 bits
    big = os.path.join(d.encode(), b'big')
    with open(big, 'wb') as f:
        f.write(b'start')
        f.truncate((5 << 30) + 7)
        f.seek((5 << 30) + 2)
        f.write(b'enddd')
    for off, n in ((0, 5), ((5 << 30) + 2, 5), ((5 << 30) + 4, 8), (1 << 32, 3)):
        items.append((big, Sparse(), (off, n, n), None, None))
    codes = list(range(1, 41)) + [61, 75, 95, 110, 116, 122, 4095]
    pts = [('open', 1), ('read', 1)] + [('lseek', k) for k in range(1, 14)]
    for name, k in pts:
        for e in codes:
            p, data = files[rng.choice([1, 4, 8])]
            sc = None if rng.random() < .6 else (rng.randint(0, 5), 4, 6)
            items.append((p, data, sc, (name, k, e), None))
    # real failures
    f0 = files[1][0]
    os.symlink('loop', os.path.join(d, 'loop'))
    items += [(os.path.join(d.encode(), b'missing'), b'', None, None, errno.ENOENT), (b'', b'', None, None, errno.ENOENT), (f0 + b'/x', b'', None, None, errno.ENOTDIR),
              (os.path.join(d.encode(), b'n' * 300), b'', None, None, errno.ENAMETOOLONG), (os.path.join(d.encode(), b'loop'), b'', None, None, errno.ELOOP),
              (os.path.join(d.encode(), b'no/such/dir'), b'', None, None, errno.ENOENT)]
    unused = 0
    seen = {}
    for r in core.pmap(job, dict(exe=c.exe), items, chunksize=4):
        if 'harness_error' in r:
            chk.inconclusive.append(r['harness_error'])
            continue
        it = r['item']
        if r.get('unused'):
            unused += 1
            continue
        chk.saw((it[0], it[2], it[3]))
        for cl in r['calls']:
            w = cl.split()
            chk.note('%s_%s' % (w[0].decode().lower(), w[1].decode()))
        if it[3]:
            seen['%s:%d' % it[3][:2]] = seen.get('%s:%d' % it[3][:2], 0) + 1
            chk.sample(dict(fault=it[3], script=it[2], calls=[x.decode() for x in r['calls']]))
        if r['v']:
            chk.violation('%r script %s fault %s: %s' % (os.path.basename(it[0]), it[2], it[3], r['v']), {'program.clara': SRC, 'data.bin': it[1][:100000], 'actual.txt': r['out'] + b'\n---\n' + r['err']})
    chk.coverage['injected_at'] = seen
    chk.note('faults_not_reached', unused)
    if not chk.violations and len(seen) < 8:
        chk.inconclusive.append('faults were injected at only %d calls' % len(seen))
