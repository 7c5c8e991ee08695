"""refall.py FILE [ID...]: apply the behaviour-preserving edits described in FILE (a python list REFS of dicts id, props, edits=[(file, function, new source)
or (file, old, new)]) in scratch copies of /repo, run the tests, and run the checks, which must stay quiet. /repo is not touched."""
import sys, os, ast, json, subprocess, shutil, textwrap
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
PY = '/opt/venv/bin/python'
def replace_function(t, name, new):
    tree = ast.parse(t)
    body = tree.body
    parts = name.split('.')
    for i, p in enumerate(parts):
        cands = [n for n in body if getattr(n, 'name', None) == p]
        n = cands[-1] if len(parts) == 1 or i < len(parts) - 1 else cands[0]
        if i < len(parts) - 1: body = n.body
    lines = t.split('\n')
    start = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
    ind = ' ' * n.col_offset
    return '\n'.join(lines[:start] + textwrap.indent(textwrap.dedent(new).strip('\n'), ind).split('\n') + lines[n.end_lineno:])
def one(r):
    d = '/tmp/rf_' + r['id']
    shutil.rmtree(d, True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    try:
        for f, old, new in r['edits']:
            p = os.path.join(d, 'quantities', f)
            t = open(p).read()
            if '\n' not in old and old.replace('.', '').replace('_', '').isalnum(): t = replace_function(t, old, new)
            elif t.count(old) != 1: return 'EDIT %s matches %d times: %r' % (f, t.count(old), old[:60])
            else: t = t.replace(old, new)
            open(p, 'w').write(t)
        env = dict(os.environ, PYTHONPATH=d)
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'quantities'], cwd=d, env=env, capture_output=True, text=True)
        if t.returncode: return 'TESTS ' + t.stdout[-400:]
        res = []
        for c in r['props']:
            p = subprocess.run([PY, '-m', 'pydv.check', c, '--tier', 'quick'], cwd='/verif', env=dict(os.environ, PYDV_REPO=d), capture_output=True, text=True)
            tail = [l for l in p.stdout.splitlines() if l.startswith(c + ':')][-1:] or [p.stdout[-200:] + p.stderr[-200:]]
            res.append(('   quiet ' if p.returncode == 0 else '*** ALARM rc=%d ' % p.returncode) + tail[0])
            if p.returncode:
                for l in p.stdout.splitlines():
                    if l.startswith('VIOLATION'):
                        try: j = json.load(open(l.split('replay=')[1].split()[0])); res.append('        ' + str(j)[:400] + ' ' + l[-25:])
                        except Exception as ex: res.append(str(ex))
        return '\n' + '\n'.join(res)
    finally: shutil.rmtree(d, True)
for r in ns['REFS']:
    if only and r['id'] not in only: continue
    try: x = one(r)
    except Exception as ex: x = 'ERROR %r' % ex
    print(r['id'], x, flush=True)
