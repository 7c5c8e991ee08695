"""plantall.py FILE [ID...]: plant the bugs described in FILE (a python list BUGS of dicts id, prop, needs, breaks, edits=[(file, old, new)], demo)
in scratch copies of /repo, confirm each one (builds, stable tests pass, demo passes without and fails with it), write seeded/<id>/ and
run the check of its property against the scratch copy. /repo is not touched."""
import sys, os, json, subprocess, shutil, concurrent.futures as cf
sys.path.insert(0, '/verif')
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
PY = '/opt/venv/bin/python'
base = json.load(open('/opt/vp/BASELINE.json'))
def one(b):
    d = '/tmp/pl_' + b['id']
    shutil.rmtree(d, True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    s = '/verif/seeded/' + b['id']
    try:
        for f, old, new in b['edits']:
            p = os.path.join(d, 'quantities', f)
            t = open(p).read()
            if t.count(old) != 1: return 'EDIT %s matches %d times: %r' % (f, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
        env = dict(os.environ, PYTHONPATH=d)
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'quantities'], cwd=d, env=env, capture_output=True, text=True)
        if t.returncode: return 'TESTS ' + [l for l in t.stdout.splitlines() if 'FAILED' in l or 'Error' in l][-1:][0][:200] if t.stdout else t.stderr[-200:]
        os.makedirs(s, exist_ok=True)
        open(s + '/patch.diff', 'w').write(diff)
        open(s + '/demo.py', 'w').write(b['demo'].lstrip())
        open(s + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(s + '/meta.json', 'w'), indent=1)
        c = subprocess.run([PY, s + '/demo.py'], cwd='/repo', capture_output=True, text=True)
        if c.returncode: shutil.rmtree(s); return 'DEMO FAILS ON CLEAN: ' + c.stderr[-300:]
        chk = subprocess.run([PY, '-c', 'import quantities; print(quantities.__file__)'], cwd=d, env=env, capture_output=True, text=True).stdout
        if d not in chk: return 'PYTHONPATH has no effect: ' + chk
        c = subprocess.run([PY, s + '/demo.py'], cwd=d, env=env, capture_output=True, text=True)
        if not c.returncode: shutil.rmtree(s); return 'DEMO PASSES WITH BUG'
        if os.environ.get('DRY'): shutil.rmtree(s); return 'ok'
        p = subprocess.run([PY, '-m', 'pydv.check', b['prop'], '--tier', 'quick'], cwd='/verif', env=dict(os.environ, PYDV_REPO=d), capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        import re
        msg = ''
        if v:
            m = re.search(r'replay=(\S+)', v[0])
            try:
                r = json.load(open(m.group(1))); msg = str(r.get('case')) + ': ' + str(r.get('message') or r.get('what') or '')[:120]
            except Exception as ex: msg = str(ex)
        return ('CAUGHT %d%s %s' % (len(v), ' (some input-less)' if any(l.endswith('no-failing-input-found') for l in v) else '', msg)) if p.returncode == 1 else '*** MISSED rc=%d %s' % (p.returncode, p.stdout[-200:])
    finally: shutil.rmtree(d, True)
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    try: r = one(b)
    except Exception as ex: r = 'ERROR %r' % ex
    print(b['id'], b['prop'], r, flush=True)
