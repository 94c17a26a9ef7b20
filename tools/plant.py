"""Build and validate seeded changes (development tool; no check reads seeded/).

plant.py build SPECFILE [id..]   write seeded/<id>/ from the specs (dicts in
                                 list SPECS: id, prop, needs, breaks, edits,
                                 demo), checking that edited lines are original
plant.py demo id..               demo on /repo and on a patched scratch copy
plant.py test id..               stable tests in a patched scratch copy
plant.py check id.. [-- C01 ..]  run checks (default: the property's) on it
"""
import sys, os, json, subprocess, shutil, tempfile, runpy, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, PY, BASE = '/repo', '/opt/venv/bin/python', '0445e92'
SEED = os.path.join(V, 'seeded')
DEMO_SH = '''#!/bin/sh
# run with cwd = the repository
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy(patch=None):
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    m = os.path.join(d, 'repo')
    sh(f'cp -a {REPO} {m}')
    if patch:
        r = sh(f'git apply {patch}', cwd=m)
        if r.returncode:
            shutil.rmtree(d)
            raise SystemExit(f'{patch}: {r.stderr}')
    return d, m


def build(spec):
    d, m = copy()
    try:
        for f, old, new in spec['edits']:
            p = os.path.join(m, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{spec["id"]}: {s.count(old)} occurrences of {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff -U3', cwd=m).stdout
        # which HEAD lines are removed, and are they original?
        for f in {e[0] for e in spec['edits']}:
            blame = sh(f'git blame -s HEAD -- {f}', cwd=m).stdout.split('\n')
            d0 = sh(f'git diff -U0 -- {f}', cwd=m).stdout
            for h in re.findall(r'^@@ -(\d+)(?:,(\d+))?', d0, re.M):
                a, n = int(h[0]), int(h[1] or 1)
                for k in range(a, a + n):
                    if not blame[k - 1].startswith('^' + BASE):
                        print(f'  NOTE {spec["id"]}: not original: {blame[k-1]}')
        o = os.path.join(SEED, spec['id'])
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
        open(os.path.join(o, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        json.dump(dict(property=spec['prop'], needs=spec['needs'],
                       what_it_breaks=spec['breaks']),
                  open(os.path.join(o, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(d)
    return None


def demo(i):
    o = os.path.join(SEED, i)
    d, m = copy(os.path.join(o, 'patch.diff'))
    try:
        a = sh(f'bash {o}/demo.sh', cwd=REPO)
        b = sh(f'bash {o}/demo.sh', cwd=m)
    finally:
        shutil.rmtree(d)
    ok = a.returncode == 0 and b.returncode != 0
    last = (b.stderr.strip().split('\n') or [''])[-1][:150]
    return f'demo {i}: {"ok" if ok else "BAD"} clean={a.returncode} {a.stderr[-300:] if a.returncode else ""} mutant={b.returncode} {last}'


def test(i):
    d, m = copy(os.path.join(SEED, i, 'patch.diff'))
    try:
        s = open('/opt/vp/test.sh').read().replace('/repo', m)
        t = os.path.join(d, 'test.sh')
        open(t, 'w').write(s)
        out = os.path.join(d, 'out.json')
        sh(f'bash {t} {out}', cwd=m)
        r = json.load(open(out))
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = set(r.get('passed', r.get('pass', [])))
        bad = sorted(base - passed)
    finally:
        shutil.rmtree(d)
    return f'test {i}: {"ok" if not bad else "FAILS " + str(bad[:4])} ({len(passed & base)}/{len(base)})'


def check(i, ids=None):
    prop = json.load(open(os.path.join(SEED, i, 'meta.json')))['property']
    d, m = copy(os.path.join(SEED, i, 'patch.diff'))
    out = []
    try:
        for c in ids or [prop]:
            r = sh(f'{PY} {V}/check.py {c}', env={**os.environ, 'SDEPY_REPO': m, 'VERIF_TIER': 'quick', 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'),
                   'SDEPY_EVIDENCE': d})
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append(f'{c}:{"CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERR%d" % r.returncode + r.stderr[-300:]}')
    finally:
        shutil.rmtree(d)
    return f'check {i} {" ".join(out)}'


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'build':
        specs = runpy.run_path(args[0])['SPECS']
        for s in specs:
            if len(args) == 1 or s['id'] in args[1:]:
                print(build(s) or f'built {s["id"]}')
    else:
        extra = None
        if '--' in args:
            k = args.index('--')
            args, extra = args[:k], args[k+1:]
        if not args:
            args = sorted(os.listdir(SEED))
        f = {'demo': demo, 'test': test, 'check': lambda i: check(i, extra)}[cmd]
        w = {'demo': 4, 'test': 2, 'check': 4}[cmd]
        with ThreadPoolExecutor(w) as ex:
            for r in ex.map(f, args):
                print(r, flush=True)
