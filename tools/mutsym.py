"""mutsym.py MUT.json [file:line | substring ...]: the obligations and 150 concrete runs of the cases that name the mutated function,
for the mutants of MUT.json that survived the short run (MUT_WORKERS processes)"""
import sys, os, json, subprocess, shutil, ast, multiprocessing as mp
PY = '/opt/venv/bin/python'
SKIP = set(os.environ.get('MF_SKIP', '').split())
def owner(path, line):
    t = ast.parse(open(path).read()); best = ''
    def walk(n, pre):
        nonlocal best
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and min([c.lineno] + [d.lineno for d in c.decorator_list]) <= line <= c.end_lineno:
                if isinstance(c, ast.FunctionDef): best = pre + c.name
                walk(c, pre + c.name + '.' if isinstance(c, ast.ClassDef) else pre)
            elif not isinstance(c, (ast.FunctionDef, ast.ClassDef)): walk(c, pre)
    walk(t, '')
    return best
CHILD = r'''
import sys, os, importlib, time, glob
sys.path.insert(0, '/verif')
from pydv.boot import load_repo
q = load_repo()
from pydv import core, sym, specs, registry, conc
for f in sorted(glob.glob('/verif/pydv/cases/*.py')):
    m = os.path.basename(f)[:-3]
    if not m.startswith('_'): importlib.import_module('pydv.cases.' + m)
fn = sys.argv[1]
cs = [c for c in registry.CASES if any(fn == f or fn == f.split('.')[-1] for f in c.funcs)]
t0 = time.time(); n = 0
import random
random.Random(1).shuffle(cs)
for c in cs:
    if time.time() - t0 > 240: break
    n += 1
    if c.symbolic:
        e = core.Engine(max_paths=600)
        try:
            e.explore(lambda: c.run(sym.SymH(e, specs.TABLE, c.skip)))
            for o in e.obligations:
                if o.status != 'proved': print('CAUGHT sym', c.name, o.name); sys.exit()
        except Exception as ex: print('CAUGHT? not decided', c.name, type(ex).__name__, str(ex)[:80]); sys.exit()
    if c.concrete:
        for s in range(120):
            try: st, h, msg = conc.run_case(q, c, s)
            except Exception as ex: st, msg = 'failed', repr(ex)[:80]
            if st == 'failed': print('CAUGHT conc', c.name, msg); sys.exit()
            if time.time() - t0 > 240: break
print('SURVIVED %d/%d cases of %s' % (n, len(cs), fn))
'''
def work(m):
    d = '/tmp/ms%d' % os.getpid()
    shutil.rmtree(d, True); subprocess.run(['cp', '-a', '/repo', d], check=True)
    p = d + '/quantities/' + m['file']
    b = open(p, 'rb').read()
    fn = owner(p, m['line'])
    open(p, 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])
    try: r = subprocess.run([PY, '-c', CHILD, fn], cwd='/verif', env=dict(os.environ, PYDV_REPO=d), capture_output=True, text=True, timeout=600); o = (r.stdout.strip().splitlines() or [r.stderr[-150:]])[-1]
    except subprocess.TimeoutExpired: o = 'timeout'
    shutil.rmtree(d, True)
    return '%s:%d %s  => %s' % (m['file'], m['line'], m['what'], o)
if __name__ == '__main__':
    ms = [m for m in json.load(open(sys.argv[1])) if m['res'] in ('SURVIVED', 'timeout') and 'with_doc' not in m['what'] and str(m['line']) not in SKIP and (len(sys.argv) < 3 or any('%s:%d' % (m['file'], m['line']) == x or x in m['what'] for x in sys.argv[2:]))]
    print(len(ms), 'mutants', flush=True)
    with mp.Pool(int(os.environ.get('MUT_WORKERS', '6'))) as P:
        for x in P.imap_unordered(work, ms): print(x, flush=True)
