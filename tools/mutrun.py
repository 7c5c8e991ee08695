import sys, random
sys.path.insert(0, '/verif')
from pydv.boot import load_repo
try: q = load_repo()
except Exception as ex: print('import fails'); sys.exit(1)
from pydv import registry, conc, cases
import importlib, pkgutil
for m in sorted(x.name for x in pkgutil.iter_modules(cases.__path__)): importlib.import_module('pydv.cases.' + m)
conc.pool(q)
cs = [c for c in registry.CASES if c.concrete]
random.Random(0).shuffle(cs)
first = [c for c in cs if c.props and not c.name.startswith(('unit_text', 'constant'))]
for s in range(int(sys.argv[1])):
    for c in cs:
        if s and c.runs == 1: continue
        try: st, h, msg = conc.run_case(q, c, s)
        except Exception as ex: continue
        if st == 'failed': print(c.props, c.name, msg[:150]); sys.exit(1)
print('nothing')
