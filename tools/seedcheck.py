#!/usr/bin/env python3
"""Development tool (not a registered check): applies planted changes to a scratch copy of /repo, confirms that they
build, pass the stable tests and that the demonstration tells them apart, and runs checks against the copy.
usage: seedcheck.py [-n] [-p C01,C02] [SEED...]   -n: no checks; -p: run these checks instead of the seed's own"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
args = sys.argv[1:]
nochecks = '-n' in args
args = [a for a in args if a != '-n']
props = None
if '-p' in args:
    i = args.index('-p'); props = args[i + 1].split(','); args = args[:i] + args[i + 2:]
seeds = args or sorted(os.listdir(S))


def sh(cmd, cwd, env=None, t=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, errors='replace')


def one(seed):
    meta = json.load(open(os.path.join(S, seed, 'meta.json')))
    top = tempfile.mkdtemp(prefix='seed-')
    try:
        d = os.path.join(top, 'repo')
        sh(['git', 'clone', '-q', '/repo', d], '/')
        for f in ('build.sh', 'test.sh'):
            x = open('/opt/vp/' + f).read().replace('/repo', d)
            open(os.path.join(top, f), 'w').write(x)
        demo = os.path.join(top, 'demo')
        shutil.copytree(os.path.join(S, seed), demo, ignore=lambda _, n: [x for x in n if x.endswith('.diff') or x == 'meta.json'])
        r = sh(['bash', os.path.join(demo, 'demo.sh')], d)
        if r.returncode != 0:
            return 'BAD demo fails on the unchanged tree: ' + r.stdout[-300:] + r.stderr[-300:]
        r = sh(['git', 'apply', os.path.join(S, seed, 'patch.diff')], d)
        if r.returncode:
            return 'BAD patch: ' + r.stderr
        r = sh(['bash', os.path.join(top, 'build.sh')], d)
        if r.returncode:
            return 'BAD build: ' + r.stderr
        sh(['bash', os.path.join(top, 'test.sh'), os.path.join(top, 'out.json')], d)
        b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(os.path.join(top, 'out.json')))
        bl = b.get('stable') or b.get('passed') or b
        miss = [t for t in (bl if isinstance(bl, list) else bl.get('passed', [])) if t not in set(o['passed'])]
        if miss:
            return 'BAD tests fail: %s' % miss
        r = sh(['bash', os.path.join(demo, 'demo.sh')], d)
        if r.returncode == 0:
            return 'BAD demo passes with the change'
        res = []
        for p in ([] if nochecks else props or [meta['property']]):
            env = dict(os.environ, CLARA_REPO=d, CLARA_EVIDENCE=os.path.join(top, 'ev'))
            r = sh([os.path.join(V, 'check'), p], V, env, 900)
            hit = r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout
            res.append('%s:%s' % (p, 'caught' if hit else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-200:] if r.returncode > 1 else '')))
            if hit:
                res.append(r.stdout.split('\n')[0][:160])
        return 'ok ' + ' '.join(res)
    finally:
        shutil.rmtree(top, ignore_errors=True)


for s in seeds:
    print(s, one(s), flush=True)
