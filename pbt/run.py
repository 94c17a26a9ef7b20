"""Runs the check of one property: see check.py."""
import importlib
import json
import multiprocessing
import os
import resource
import sys
import time
import zlib
from multiprocessing import connection

from pbt import bootstrap
bootstrap.ensure()

VERIF = bootstrap.VERIF
WORKERS = 8
BUDGET = dict(quick=600, thorough=6*3600)


def load_known(pid):
    """Entries of known_findings.json for this property not marked as fixed."""
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            entries = json.load(f)['findings']
    except FileNotFoundError:
        return []
    return [e for e in entries if e['property'] == pid]


def worker(sub, seed, n, deadline, skip, conn):
    from pbt import core
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    rep = core.run_sub(sub, seed, n, deadline, skip)
    conn.send(rep)
    conn.close()


def run_jobs(jobs, deadline, skip):
    """Runs (sub, seed, n) jobs on WORKERS processes; yields reports."""
    ctx = multiprocessing.get_context('fork')
    queue, running, reports = list(jobs), {}, []
    while queue or running:
        while queue and len(running) < WORKERS:
            sub, seed, n = queue.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(sub, seed, n, deadline, skip, w))
            p.start()
            w.close()
            running[r] = (p, sub)
        for r in connection.wait(list(running)):
            p, sub = running.pop(r)
            try:
                rep = r.recv()
            except EOFError:
                p.join()
                rep = dict(sub=sub.name, died=p.exitcode)
            r.close()
            p.join()
            reports.append(rep)
            if rep.get('failure'):
                queue = []      # one violation decides; let the others end
                for q, _ in running.values():
                    q.terminate()
    return reports


def main(argv):
    pid = argv[0]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]

    import numpy            # noqa
    import scipy.stats      # noqa
    try:
        import sdepy
        repo = os.path.realpath(os.environ['SDEPY_REPO'])
        if not os.path.realpath(sdepy.__file__).startswith(repo + os.sep):
            print('error: sdepy imported from', sdepy.__file__)
            return 2
    except Exception as e:
        print('error: sdepy does not import:', type(e).__name__, e)
        return 2
    from pbt import core
    mod = importlib.import_module('pbt.checks.' + pid.lower())

    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rec = json.load(f)
        sub = [z for z in mod.subs if z.name == rec['sub']][0]
        msg = core.run_case(sub.fn, rec['spec'], core.Ctx())
        if msg is None:
            print('replay: the property holds on this case')
            return 0
        print('replay:', msg)
        print('VIOLATION property={} replay={}'.format(
            pid, argv[argv.index('--replay') + 1]))
        return 1

    known = load_known(pid)
    open_known = [e for e in known if e['status'] == 'open']

    def skip(subname, spec, msg):
        for e in open_known:
            if e['sub'] == subname and getattr(mod, e['match'])(spec, msg):
                return e['id']
        return None

    only = argv[argv.index('--sub') + 1] if '--sub' in argv else None
    jobs = []
    for sub in mod.subs:
        if only and sub.name != only:
            continue
        n = sub.quick if tier == 'quick' else sub.thorough
        if '--n' in argv:
            n = int(argv[argv.index('--n') + 1])
        shards = sub.shards if tier == 'quick' else max(8, sub.shards)
        for k in range(shards):
            s = zlib.crc32('{}/{}/{}/{}'.format(seed, pid, sub.name, k).encode())
            jobs.append((sub, s, -(-n//shards)))
    deadline = t0 + BUDGET[tier]
    reports = run_jobs(jobs, deadline, skip if open_known else None)
    rc = report(pid, tier, seed, mod, reports, open_known, t0,
                verbose='-v' in argv)
    return rc


def report(pid, tier, seed, mod, reports, open_known, t0, verbose):
    failures = [r for r in reports if r.get('failure')]
    died = [r for r in reports if 'died' in r]
    errors = [r for r in reports if r.get('error')]
    good = [r for r in reports if 'died' not in r]
    subs = {}
    for r in good:
        s = subs.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=0,
                                           labels={}, wall_s=0.))
        s['evaluations'] += r['evaluations']
        s['distinct_nontrivial'] += r['nontrivial']
        s['wall_s'] = round(max(s['wall_s'], r['wall_s']), 2)
        for k, v in r['labels'].items():
            s['labels'][k] = s['labels'].get(k, 0) + v
    samples = []
    for r in good:
        samples += [dict(sub=r['sub'], case=c) for c in r['samples'][:1]]
    known_counts = {}
    for r in good:
        for k, v in r['known'].items():
            known_counts[k] = known_counts.get(k, 0) + v
    ev = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(s['evaluations'] for s in subs.values()),
            distinct_nontrivial=sum(s['distinct_nontrivial']
                                    for s in subs.values()),
            rule=mod.subs.rule, samples=samples[:40], subs=subs,
            incomplete=[r['sub'] for r in good if r['incomplete']],
            excluded_known=known_counts, exhaustive=False),
        assumptions=['cases are drawn from the stated generators; absence of '
                     'a counterexample is not a proof',
                     'NumPy and SciPy are trusted'],
        wall_s=round(time.time() - t0, 2), violations=len(failures))
    evdir = os.environ.get('SDEPY_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)

    c = ev['coverage']
    print('{} {} seed={}: {} cases, {} distinct non-trivial, {:.1f} s'.format(
        pid, tier, seed, c['evaluations'], c['distinct_nontrivial'],
        ev['wall_s']))
    if verbose:
        for k, s in subs.items():
            print('  ', k, s)
    for e in open_known:
        print('KNOWN-FINDING: property={} {} ({} cases)'.format(
            pid, e['what'], known_counts.get(e['id'], 0)))
    if failures:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for r in failures:
            path = os.path.join(VERIF, 'replays',
                                '{}-{}.json'.format(pid, r['sub']))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, sub=r['sub'],
                               spec=r['failure']['spec'],
                               message=r['failure']['message'],
                               run='check.py {} --replay <this file>'.format(
                                   pid)), f, indent=1)
            print('{}: {}\n  case: {}'.format(
                r['sub'], r['failure']['message'][:1500],
                json.dumps(r['failure']['spec'])[:1500]))
            print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    if errors or died:
        for r in errors:
            print('ERROR in {}: {}'.format(r['sub'], r['error']))
        for r in died:
            print('ERROR in {}: worker died, exit code {}'.format(
                r['sub'], r['died']))
        return 2
    if not c['evaluations']:
        print('ERROR: no case was evaluated')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
