"""the list of contract cases"""
CASES = []
class Case:
    def __init__(self, name, props, fn, params, skip, funcs, symbolic, concrete, core, runs=None, weight=1):
        self.name, self.props, self.fn, self.params, self.skip, self.funcs = name, props, fn, params, skip, funcs
        self.symbolic, self.concrete, self.core, self.runs, self.weight = symbolic, concrete, core, runs, weight
    def run(self, h): return self.fn(h, **self.params)
def case(props, funcs=(), skip=(), symbolic=True, concrete=True, core=False, only=None, runs=None, weight=1, **variants):
    """register a contract case (one per combination of variants). props: property ids; skip: functions whose own
    body is verified here (their contract is not used for the first call); funcs: functions this is a contract of"""
    props = props.split() if isinstance(props, str) else list(props)
    funcs = [funcs] if isinstance(funcs, str) else list(funcs)
    skip = [skip] if isinstance(skip, str) else list(skip)
    def deco(fn):
        combos = [{}]
        for k, vs in variants.items():
            combos = [dict(c, **{k: v}) for c in combos for v in vs]
        for c in combos:
            if only is not None and not only(**c): continue
            nm = fn.__name__ + ('[%s]' % ','.join(str(getattr(v, '__name__', v)) for v in c.values()) if c else '')
            CASES.append(Case(nm, props, fn, c, [s % c if '%' in s else s for s in skip], [s % c if '%' in s else s for s in funcs], symbolic, concrete, core, runs, weight))
        return fn
    return deco
