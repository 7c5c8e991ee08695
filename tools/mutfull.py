"""mutfull.py MUT.json [substring...]: the full quick checks on the mutants of MUT.json that survived the short run"""
import sys, os, json, subprocess, shutil
PY = '/opt/venv/bin/python'
PROPS = {'dimensionality.py': 'C07 C10 C01 C05', 'unitquantity.py': 'C08 C05 C15 C20 C09 C01 C02', 'markup.py': 'C20 C09', 'registry.py': 'C09 C08', 'quantity.py': 'C03 C21 C12 C13 C14 C02 C01 C10 C06 C05 C15 C20', 'uncertainquantity.py': 'C16 C17 C15 C20', 'umath.py': 'C11', 'constants/_utils.py': 'C19'}
SKIP = set(os.environ.get('MF_SKIP', '').split())
ms = [m for m in json.load(open(sys.argv[1])) if m['res'] in ('SURVIVED', 'timeout') and 'with_doc' not in m['what'] and m['file'] != 'decorators.py' and str(m['line']) not in SKIP and (len(sys.argv) < 3 or any('%s:%d' % (m['file'], m['line']) == x or x in m['what'] for x in sys.argv[2:]))]
d = '/tmp/mf%d' % os.getpid()
for m in ms:
    shutil.rmtree(d, True); subprocess.run(['cp', '-a', '/repo', d], check=True)
    p = d + '/quantities/' + m['file']
    b = open(p, 'rb').read()
    open(p, 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])
    got = None
    for c in PROPS[m['file']].split():
        r = subprocess.run([PY, '-m', 'pydv.check', c, '--tier', 'quick'], cwd='/verif', env=dict(os.environ, PYDV_REPO=d, PYDV_RUNS=os.environ.get('PYDV_RUNS', '')), capture_output=True, text=True)
        if r.returncode:
            got = c + ' ' + [l for l in r.stdout.splitlines() if l.startswith('  ')][0][:150] + ' ' + [l for l in r.stdout.splitlines() if 'VIOL' in l][0][-24:]; break
    print('%-8s %s:%d %s  %s' % ('caught' if got else 'SURVIVED', m['file'], m['line'], m['what'], got or ''), flush=True)
shutil.rmtree(d, True)
