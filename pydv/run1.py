import sys, time, importlib, traceback
from .boot import load_repo
load_repo()
from . import core, sym, specs, registry
def main(mods, pat=''):
    for m in mods.split(','): importlib.import_module('pydv.cases.' + m)
    for c in registry.CASES:
        if pat and not any(x in c.name for x in pat.split('|')) or not c.symbolic: continue
        e = core.Engine(max_paths=600)
        t = time.time()
        err = ''
        try:
            def go():
                h = sym.SymH(e, specs.TABLE, c.skip)
                c.run(h)
            e.explore(go)
        except core.Unsupported as ex: err = 'UNSUPPORTED %s' % ex
        except Exception as ex:
            err = 'CRASH ' + ' | '.join(traceback.format_exc().strip().split('\n')[-9:])
        n = {}
        for o in e.obligations: n[o.status] = n.get(o.status, 0) + 1
        if '-q' in sys.argv and not err and set(n) == {'proved'}: continue
        print('%-40s %5.2fs paths %d/%d %s %s' % (c.name, time.time() - t, e.live_paths, e.paths, n, err))
        seen = set()
        for o in e.obligations:
            if o.status != 'proved' and o.name not in seen:
                seen.add(o.name)
                print('      ', o.status, o.name, o.reason)
                if '-v' in sys.argv and o.model: print(o.model)
if __name__ == '__main__': main(*[a for a in sys.argv[1:] if a not in ('-v', '-q')])
