"""helpers of the contract cases (specification side: run natively in both interpretations)"""
QUANT = ['quantity', 'scalarq', 'view']
UNITS = ['derived', 'base', 'compound', 'dimensionless', 'constant']
PLAIN = ['float', 'int', 'npfloat', 'ndarray', 'list']
NUMBERS = ['float', 'int', 'npfloat']

class Snap:
    """the state of an object before the call"""
    def __init__(self, h, x):
        self.h, self.x = h, x
        self.map, self.mag, self.unc = h.map(x), None, None
        if not h.has_magnitude(x): return
        self.mag = h.mag(x)
        self.unc = h.unc(x) if h.unc_obj(x) is not None else None
        self.uncmap = h.map(h.unc_obj(x)) if self.unc is not None else None
    def same(self):
        h, x = self.h, self.x
        if self.mag is None: return h.eqmap(h.map(x), self.map)
        f = [h.eqmap(h.map(x), self.map), h.same(h.mag(x), self.mag, dtype=True)]
        if self.unc is not None:
            f += [h.same(h.unc(x), self.unc), h.eqmap(h.map(h.unc_obj(x)), self.uncmap)]
        return h.And(*f)

def unchanged(h, *snaps, name='operands unchanged'):
    h.post(name, h.And(*[s.same() for s in snaps]))

def is_unit_kind(k): return k in UNITS
def plain(k): return k in PLAIN
