"""mutate.py OUT.json FILE...: mutants of the given files of the package that pass the test suite, and whether a short concrete run of every
contract case notices them (the proofs and the full checks are not run here). Works in scratch copies under /tmp; /repo is not touched."""
import sys, os, ast, json, subprocess, shutil, random, concurrent.futures as cf, queue
PY = '/opt/venv/bin/python'
SRC = '/repo/quantities/'
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '+'}
def mutants(f):
    t = open(SRC + f).read()
    b = t.encode()
    off = [0]
    for l in b.split(b'\n'): off.append(off[-1] + len(l) + 1)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    src = lambda n: b[slice(*pos(n))].decode()
    out = []
    def put(n, new, what, rng=None):
        s, e = rng or pos(n)
        if b[s:e].decode() != new: out.append((f, n.lineno, what + ': ' + b[s:e].decode()[:60].replace('\n', ' ') + ' -> ' + new[:60].replace('\n', ' '), s, e, new))
    tree = ast.parse(t)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): doc.add(n.body[0])
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for s in n.body:
                for x in ast.walk(s): infn.add(x)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '%s %s %s' % (src(n.left), CMP[type(n.ops[0])], src(n.comparators[0])), 'cmp')
            if n in infn: put(n, 'True', 'cmp'); put(n, 'False', 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join('(%s)' % src(v) for v in n.values) + ')', 'bool')
            for v in n.values: put(n, '(%s)' % src(v), 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): put(n, '(%s)' % src(n.operand), 'unary')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str): continue
            put(n, '(%s) %s (%s)' % (src(n.left), BIN[type(n.op)], src(n.right)), 'bin')
            put(n, '(%s)' % src(n.left), 'bin')
        elif isinstance(n, ast.Constant) and n in infn:
            if isinstance(n.value, bool): put(n, str(not n.value), 'const')
            elif isinstance(n.value, (int, float)): put(n, repr(n.value + 1), 'const')
        elif isinstance(n, ast.If) and n in infn:
            put(n.test, 'not (%s)' % src(n.test), 'if')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n in infn and n not in doc:
            put(n, 'pass', 'del')
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Name) or isinstance(n.value, ast.Constant)): put(n, 'return None', 'ret') if False else None
        elif isinstance(n, ast.Raise): put(n, 'pass', 'raise')
        elif isinstance(n, ast.Call):
            for i, a in enumerate(n.args):
                if len(n.args) > 1 and not isinstance(a, ast.Starred):
                    rest = [src(x) for x in n.args[:i] + n.args[i + 1:]] + [src_kw(src, k) for k in n.keywords]
                    if i == len(n.args) - 1: put(n, '%s(%s)' % (src(n.func), ', '.join(rest)), 'arg')
            for k in n.keywords:
                rest = [src(x) for x in n.args] + [src_kw(src, x) for x in n.keywords if x is not k]
                put(n, '%s(%s)' % (src(n.func), ', '.join(rest)), 'kw')
            if len(n.args) == 2 and not n.keywords: put(n, '%s(%s, %s)' % (src(n.func), src(n.args[1]), src(n.args[0])), 'swap')
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args: put(n, src(n.func.value), 'copy')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == 'dimensionality': put(n, src(n.value) + '._dimensionality', 'attr')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == 'magnitude': put(n, src(n.value), 'attr')
        elif isinstance(n, ast.FunctionDef) and n.decorator_list:
            for d in n.decorator_list:
                if 'property' in src(d) or 'setter' in src(d) or 'with_doc' in src(d) or 'wraps' in src(d) or 'classmethod' in src(d): continue
                s, e = pos(d); s = b.rfind(b'@', 0, s)
                put(d, '', 'deco', (s, e))
        elif isinstance(n, ast.IfExp): put(n, '(%s)' % src(n.body), 'ifexp'); put(n, '(%s)' % src(n.orelse), 'ifexp')
    return t, out
def src_kw(src, k): return ('%s=%s' % (k.arg, src(k.value))) if k.arg else '**' + src(k.value)
def main():
    outf, files = sys.argv[1], sys.argv[2:]
    nw = int(os.environ.get('MUT_WORKERS', '8')); runs = os.environ.get('MUT_RUNS', '3')
    lim = int(os.environ.get('MUT_LIMIT', '100000'))
    jobs = []
    for f in files:
        t, ms = mutants(f)
        jobs += [(f, t, m) for m in ms]
    random.Random(int(os.environ.get('MUT_SEED', '1'))).shuffle(jobs)
    jobs = jobs[:lim]
    print(len(jobs), 'mutants', flush=True)
    dirs = queue.Queue()
    for i in range(nw):
        d = '/tmp/mut_%s_%d' % (os.getpid(), i); shutil.rmtree(d, True); subprocess.run(['cp', '-a', '/repo', d], check=True); dirs.put(d)
    def work(j):
        f, t, (_, line, what, s, e, new) = j
        d = dirs.get()
        try:
            b = t.encode(); p = os.path.join(d, 'quantities', f)
            m = (b[:s] + new.encode() + b[e:]).decode()
            try: compile(m, f, 'exec')
            except SyntaxError: return None
            open(p, 'w').write(m)
            env = dict(os.environ, PYTHONPATH=d, PYDV_REPO=d, PYTHONDONTWRITEBYTECODE='1')
            try: r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'quantities'], cwd=d, env=env, capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired: return dict(file=f, line=line, what=what, res='tests')
            if r.returncode: return dict(file=f, line=line, what=what, res='tests')
            try: r = subprocess.run([PY, '/verif/tools/mutrun.py', runs], cwd='/verif', env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: return dict(file=f, line=line, what=what, res='timeout', s=s, e=e, new=new)
            l = (r.stdout.strip().splitlines() or [r.stderr[-200:]])[-1]
            return dict(file=f, line=line, what=what, res='caught' if r.returncode == 1 else 'SURVIVED', by=l[:200], s=s, e=e, new=new)
        finally:
            open(os.path.join(d, 'quantities', f), 'w').write(t)
            dirs.put(d)
    res = []
    with cf.ThreadPoolExecutor(nw) as ex:
        for x in ex.map(work, jobs):
            if x is None: continue
            res.append(x)
            if x['res'] not in ('tests',): print('%-9s %s:%d %s   %s' % (x['res'], x['file'], x['line'], x['what'], x.get('by', '')[:110] if x['res'] != 'SURVIVED' else ''), flush=True)
            json.dump(res, open(outf, 'w'))
    while not dirs.empty(): shutil.rmtree(dirs.get(), True)
    c = {}
    for x in res: c[x['res']] = c.get(x['res'], 0) + 1
    print(c)
main()
