import sys, time, importlib, traceback
from .boot import load_repo
q = load_repo()
from . import registry, conc
def main(mods, pat='', n='300'):
    for m in mods.split(','): importlib.import_module('pydv.cases.' + m)
    for c in registry.CASES:
        if (pat and not any(x in c.name for x in pat.split('|'))) or not c.concrete: continue
        cnt = {}; first = None; t = time.time()
        for s in range(int(n)):
            try: st, h, msg = conc.run_case(q, c, s)
            except Exception as ex:
                st, msg = 'CRASH', ' | '.join(traceback.format_exc().strip().split('\n')[-9:]); h = None
            cnt[st] = cnt.get(st, 0) + 1
            if st in ('failed', 'CRASH') and first is None: first = (s, msg, h and h.inputs)
        if first or cnt.get('ok', 0) < 10 or '-a' in sys.argv: print('%-40s %5.2fs %s %s' % (c.name, time.time() - t, cnt, first or ''))
if __name__ == '__main__': main(*[a for a in sys.argv[1:] if not a.startswith('-')])
