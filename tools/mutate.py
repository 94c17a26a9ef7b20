"""Mutation campaign (development tool; no check uses it).

mutate.py cov [N]             lines of sdepy run by each sub-check -> cov.json
mutate.py run FILE [options]  mutants of sdepy/FILE against the sub-checks
                              covering their line; survivors -> FILE.surv
  --sample K --seed S --func NAME --budget SECONDS --only LINE-LINE
Results in $MUT (default /tmp/mut)."""
import ast, json, os, random, shutil, signal, sys, time, importlib, tempfile, zlib, glob, argparse
import multiprocessing as mp

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('MUT', '/tmp/mut')
REPO = os.environ.get('SDEPY_REPO', '/repo')
sys.path[:0] = [V]
IDS = [os.path.basename(f)[:-3] for f in sorted(glob.glob(V + '/pbt/checks/c*.py'))]
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True


def cov_one(cid, n, q):
    sys.path.insert(0, REPO)
    os.environ['SDEPY_REPO'] = REPO
    from pbt import core
    core.SHRINK = False
    import sdepy
    root = os.path.dirname(os.path.realpath(sdepy.__file__))
    mod = importlib.import_module('pbt.checks.' + cid)
    mon = sys.monitoring
    TOOL = mon.COVERAGE_ID
    mon.use_tool_id(TOOL, 'cov')
    hits = set()

    def on_line(code, line):
        if code.co_filename.startswith(root):
            hits.add((os.path.basename(code.co_filename), line))
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)
    out = {}
    for sub in mod.subs:
        hits.clear()
        mon.restart_events()
        t = time.time()
        rep = core.run_sub(sub, 1, n, time.time() + 120)
        out[sub.name] = dict(lines=sorted(hits), quick=sub.quick,
                             per=(time.time() - t)/max(1, rep['evaluations']))
    q.put((cid, out))


def cov(n):
    q = mp.Queue()
    res, todo, run = {}, list(IDS), []
    while len(res) < len(IDS):
        while todo and len(run) < 8:
            p = mp.Process(target=cov_one, args=(todo.pop(0), n, q))
            p.start()
            run.append(p)
        cid, o = q.get()
        res[cid] = o
        run = [p for p in run if p.is_alive()]
        print(cid, {k: (len(v['lines']), round(v['per']*1e3)) for k, v in o.items()}, flush=True)
    json.dump(res, open(OUT + '/cov.json', 'w'))


SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
        ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BSWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/',
         ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '*', ast.MatMult: '*'}
FSWAP = {'min': 'max', 'max': 'min', 'abs': '', 'floor': 'ceil', 'ceil': 'floor', 'any': 'all', 'all': 'any',
         'ones': 'zeros', 'zeros': 'ones', 'empty': 'zeros', 'minimum': 'maximum', 'maximum': 'minimum',
         'copy': '', 'exp': '', 'sqrt': '', 'cumsum': 'sort', 'sort': '', 'reversed': '',
         'bisect_left': 'bisect_right', 'bisect_right': 'bisect_left', 'bisect': 'bisect_left',
         'hasattr': None}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    seg = lambda n: (off[n.lineno-1] + n.col_offset, off[n.end_lineno-1] + n.end_col_offset)
    txt = lambda n: b[slice(*seg(n))].decode()
    out = []
    docs = set()
    func = {}

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            name = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                name = (fn + '.' if fn else '') + ch.name
            func[ch] = name
            walk(ch, name)
    walk(tree, '')
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            for st in node.body:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
                    docs.add(st); docs.add(st.value)
    inraise = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Raise) or (isinstance(node, ast.Call) and txt(node.func).startswith('warnings.')):
            for z in ast.walk(node):
                if z is not node:
                    inraise.add(z)

    def add(node, kind, start, end, new):
        out.append((node.lineno, kind, func.get(node, ''), start, end, new))

    def between(a, c, new, node, kind):
        s, e = seg(a)[1], seg(c)[0]
        old = b[s:e].decode()
        # keep parentheses and line breaks around the operator
        import re
        m = re.search(r'(is not|not in|<=|>=|==|!=|\*\*|//|\bis\b|\bin\b|[-+*/<>&|%@])', old)
        if m and '#' not in old:
            add(node, kind + ':' + m.group(0).strip() + '→' + new, s + len(old[:m.start()].encode()), s + len(old[:m.end()].encode()), new)

    for n in ast.walk(tree):
        if n in inraise or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            left = n.left
            for op, c in zip(n.ops, n.comparators):
                if type(op) in SWAP:
                    between(left, c, SWAP[type(op)], n, 'cmp')
                if isinstance(op, (ast.Lt, ast.LtE)):
                    between(left, c, '>', n, 'cmp')
                left = c
        elif isinstance(n, ast.BinOp) and type(n.op) in BSWAP:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            between(n.left, n.right, BSWAP[type(n.op)], n, 'op')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BSWAP:
            s, e = seg(n.target)[1], seg(n.value)[0]
            add(n, 'aug', s, e, ' = ')
        elif isinstance(n, ast.BoolOp):
            new = 'or' if isinstance(n.op, ast.And) else 'and'
            old = 'and' if new == 'or' else 'or'
            for a, c in zip(n.values, n.values[1:]):
                s, e = seg(a)[1], seg(c)[0]
                t = b[s:e].decode()
                if old in t:
                    k = t.index(old)
                    add(n, 'bool', s + k, s + k + len(old), new)
            for v in n.values:
                add(v, 'clause', *seg(v), 'True' if old == 'and' else 'False')
        elif isinstance(n, ast.UnaryOp):
            add(n, 'unary', *seg(n), '(' + txt(n.operand) + ')')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            if v is True or v is False:
                add(n, 'const', *seg(n), str(not v))
            elif v is None:
                pass
            elif isinstance(v, int):
                add(n, 'const', *seg(n), str(v + 1))
                if v == 1:
                    add(n, 'const', *seg(n), '0')
                if v > 1:
                    add(n, 'const', *seg(n), str(v - 1))
            elif isinstance(v, float):
                add(n, 'const', *seg(n), repr(v*1.125 if v else 0.125))
        elif isinstance(n, ast.Constant) and n.value in ('left', 'right'):
            add(n, 'str', *seg(n), repr('left' if n.value == 'right' else 'right'))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                add(n.test, 'if', *seg(n.test), 'True')
            add(n.test, 'if', *seg(n.test), 'False')
        elif isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    s, e = seg(kw)
                    # drop the keyword with the comma before
                    p = b[:s].rstrip()
                    s0 = len(p) - 1 if p.endswith(b',') else s
                    if p.endswith(b',') or p.endswith(b'('):
                        e0 = e
                        if p.endswith(b'(') and b[e:e+1] == b',':
                            e0 = e + 1
                        add(n, 'kw-' + kw.arg, s0, e0, '')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a0, a1 = n.args[:2]
                s0, e0 = seg(a0); s1, e1 = seg(a1)
                add(n, 'argswap', s0, e1, txt(a1) + b[e0:s1].decode() + txt(a0))
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in FSWAP and FSWAP[name] is not None:
                s, e = seg(f)
                if FSWAP[name]:
                    add(n, 'fun', e - len(name), e, FSWAP[name])
                elif n.args:
                    add(n, 'fun-' + name, *seg(n), '(' + txt(n.args[0]) + ')')
                elif isinstance(f, ast.Attribute):
                    add(n, 'fun-' + name, *seg(n), '(' + txt(f.value) + ')')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n, 'slice', *seg(n.lower), '')
            if n.upper is not None:
                add(n, 'slice', *seg(n.upper), '')
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                add(t, 'if', *seg(t), 'True')
        elif isinstance(n, (ast.Assign, ast.Expr)):
            add(n, 'del', *seg(n), 'pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        elif isinstance(n, ast.Raise):
            add(n, 'del', *seg(n), 'pass')
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'del', *seg(n), 'pass')
    res = []
    for ln, kind, fn, s, e, new in sorted(set(out), key=lambda z: (z[0], z[3], z[1])):
        m = (b[:s] + new.encode() + b[e:]).decode()
        try:
            if ast.dump(ast.parse(m)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append(dict(line=ln, kind=kind, func=fn, old=b[s:e].decode(), new=new, src=m))
    return res


def one(f, m, plan, budget, conn):
    """Runs in a forked process: conn.send((status, sub, message))."""
    os.setsid()
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        shutil.copytree(REPO + '/sdepy', d + '/sdepy', ignore=shutil.ignore_patterns('__pycache__', 'tests'))
        if os.path.isdir(REPO + '/sdepy/tests'):
            os.symlink(REPO + '/sdepy/tests', d + '/sdepy/tests')
        open(d + '/sdepy/' + f, 'w').write(m['src'])
        sys.path.insert(0, d)
        os.environ['SDEPY_REPO'] = d
        os.environ['PBT_SCRATCH'] = d
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1); os.dup2(null, 2)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        t0 = time.time()
        try:
            import sdepy
        except Exception as e:
            conn.send(('import', '', repr(e)[:200]))
            return
        from pbt import core
        core.SHRINK = False
        core.CASE_TIMEOUT = 20
        done = []
        for cid, name, n in plan:
            try:
                mod = importlib.import_module('pbt.checks.' + cid)
            except Exception as e:
                conn.send(('killed', cid, 'import of check: ' + repr(e)[:200]))
                return
            sub = [z for z in mod.subs if z.name == name][0]
            rep = core.run_sub(sub, zlib.crc32(f'{cid}{name}'.encode()), n, t0 + budget)
            if rep['failure']:
                conn.send(('killed', cid + '.' + name, rep['failure']['message'][:200]))
                return
            if rep['error']:
                conn.send(('error', cid + '.' + name, rep['error'][-300:]))
                return
            done.append(f'{cid}.{name}:{rep["evaluations"]}')
            if time.time() > t0 + budget:
                break
        conn.send(('SURVIVED', ' '.join(done), ''))
    except BaseException as e:
        try:
            conn.send(('died', '', repr(e)[:200]))
        except Exception:
            pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
        os._exit(0)


def plan_for(covd, f, line, frac, every):
    c = []
    for cid, subs in covd.items():
        for name, o in subs.items():
            if [f, line] in o['lines'] or every:
                # prefer sub-checks running few other lines, and cheap ones
                c.append((len(o['lines'])*1., o['per'], cid, name, o['quick']))
    c.sort()
    plan = []
    # a quick round on all, then a deep one
    for z in c:
        plan.append((z[2], z[3], max(15, int(z[4]*.08))))
    for z in c:
        plan.append((z[2], z[3], max(30, int(z[4]*frac))))
    return plan


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd'); ap.add_argument('file', nargs='?')
    ap.add_argument('--sample', type=int, default=10**9); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--func', default=''); ap.add_argument('--budget', type=float, default=120)
    ap.add_argument('--only', default=''); ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--frac', type=float, default=.5); ap.add_argument('--tag', default='')
    ap.add_argument('--list', action='store_true'); ap.add_argument('--from', dest='frm', default='')
    a = ap.parse_args()
    os.makedirs(OUT, exist_ok=True)
    from pbt import bootstrap
    bootstrap.ensure()
    import numpy, scipy.stats, scipy.interpolate, scipy.special, scipy.integrate, scipy.optimize, hypothesis  # noqa
    if a.cmd == 'cov':
        return cov(int(a.file or 60))
    covd = json.load(open(OUT + '/cov.json'))
    src = open(f'{REPO}/sdepy/{a.file}').read()
    ms = mutants(src)
    if a.func:
        ms = [m for m in ms if a.func in m['func']]
    if a.only:
        lo, hi = map(int, a.only.split('-'))
        ms = [m for m in ms if lo <= m['line'] <= hi]
    if a.frm:
        # survivors of an earlier run
        keep = {(z['kind'], z['func'], z['old'], z['new'], z['text']) for z in json.load(open(a.frm))}
        L = src.split('\n')
        ms = [m for m in ms if (m['kind'], m['func'], m['old'], m['new'], L[m['line']-1].strip()) in keep]
    covered = {l for subs in covd.values() for o in subs.values() for g, l in o['lines'] if g == a.file}
    nc = [m for m in ms if m['line'] not in covered]
    ms = [m for m in ms if m['line'] in covered]
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.sample]
    print(f'{a.file}: {len(ms)} mutants, {len(nc)} on lines not covered', flush=True)
    if a.list:
        return
    ctx = mp.get_context('fork')
    running, todo, surv, stat = {}, list(ms), [], {}
    from multiprocessing import connection
    L = src.split('\n')
    t00 = time.time()
    tag = a.tag or a.file[:-3]
    log = open(f'{OUT}/{tag}.log', 'a')
    while todo or running:
        while todo and len(running) < a.workers:
            m = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=one, args=(a.file, m, plan_for(covd, a.file, m['line'], a.frac, False), a.budget, w))
            p.start(); w.close()
            running[r] = (p, m, time.time())
        for r in connection.wait(list(running), timeout=5):
            p, m, t = running.pop(r)
            try:
                st = r.recv()
            except EOFError:
                st = ('died', '', '')
            r.close(); p.join()
            stat[st[0]] = stat.get(st[0], 0) + 1
            rec = dict(status=st[0], by=st[1], msg=st[2], line=m['line'], kind=m['kind'], func=m['func'],
                       old=m['old'], new=m['new'], text=L[m['line']-1].strip())
            log.write(json.dumps(rec) + '\n'); log.flush()
            if st[0] in ('SURVIVED', 'died', 'error'):
                surv.append(rec)
                print(f"{st[0]} {m['line']} {m['func']} [{m['kind']}] {m['old'][:60]!r} -> {m['new'][:60]!r} | {rec['text'][:90]} {st[2][:80]} ({time.time()-t:.0f}s)", flush=True)
                json.dump(surv, open(f'{OUT}/{tag}.surv', 'w'))
        for r, (p, m, t) in list(running.items()):
            if time.time() - t > a.budget*1.5 + 90:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
    print(tag, stat, f'{time.time()-t00:.0f}s', flush=True)


if __name__ == '__main__':
    main()
