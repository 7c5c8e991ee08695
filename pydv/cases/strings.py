"""unit strings (C09) and displayed units (C20)"""
import ast, math
import numpy as np
from ..registry import case
from .. import catalogue as cat

# ------------------------------------------------------------------ C20: text of a dimensionality
@case('C20 C09', funcs=['format_units'], core=True, weight=2, unicode=[False, True])
def plain_text(h, unicode):
    """the plain text names every unit with its exponent: n1*n2**2/(d1*d2**0.5)"""
    h.use_unicode(unicode)
    d = h.text_dims('d')
    m = h.map(d)
    r = h.returns(h.run(lambda: h.q.markup.format_units(d)))
    h.post('every unit with its exponent', h.is_unit_text(r, m, 'u_symbol' if unicode else 'symbol'))
    h.post('the dimensionality is unchanged', h.eqmap(h.map(d), m))

@case('C09', funcs=['UnitRegistry.__getitem__', 'UnitRegistry.__Registry.__getitem__', 'format_units'], weight=2)
def round_trip(h):
    """parsing the string form of a dimensionality gives that dimensionality"""
    h.use_unicode(False)
    d = h.named_dims('d')
    m = h.map(d)
    r = h.returns(h.run(lambda: h.q.unit_registry[d.string]))
    h.post('the same dimensionality', h.eqmap(h.map(r), m))
    r = h.returns(h.run(lambda: h.q.Quantity(2.0, d.string)))
    h.post('the same dimensionality', h.eqmap(h.map(r), m))
    h.post('the magnitude', h.eqnum(h.value(h.mag(r)), 2))

# ------------------------------------------------------------------ C09: safety
@case('C09', funcs=['UnitRegistry.__getitem__', 'UnitRegistry.__Registry.__getitem__'])
def parsing_is_safe(h):
    """whatever the string, only arithmetic over registered names and numbers is evaluated"""
    s = h.any_text('s')
    o = h.run(lambda: h.q.unit_registry[s])
    h.post('a string that is no arithmetic expression is refused', h.only_arithmetic(s, o))

@case('C09', funcs=['UnitRegistry.__getitem__'], symbolic=False, runs=1, name=[n for n in cat.UNITS if n in cat.LABELS])
def unit_texts_parse(h, name):
    """the name, symbol and aliases of every unit, in every position of a text, are parsed as that unit"""
    q = h.q
    u = q.unit_registry[name] if name.isidentifier() else None
    for a in cat.LABELS[name][1]:
        v = getattr(q, a, None)
        if getattr(v, '_name', None) == name: u = v
    h.note('unit', u)
    labels = [u.symbol, u.name] + list(cat.LABELS[name][0])
    one = h.one(u)
    mm, ss = h.one(q.m), h.one(q.s)
    if name == 'dimensionless': one = h.empty()
    if isinstance(u, q.CompoundUnit): one = h.map(u.definition)     # the text of a compound unit is a product itself
    for l in labels:
        for t, m in (('%s', one), ('%s**2', one * 2), ('%s^2', one * 2), ('1/%s', -one), ('%s**-1', -one), ('%s**0.5', one * 0.5), ('m*%s', mm + one), ('%s*m', mm + one), ('m/%s', mm - one), ('%s/m', one - mm), ('m·%s', mm + one), ('%s·m', mm + one),
                     ('1/(%s*m)', -one - mm), ('m/(s*%s**1e-07)', mm - ss - one * 1e-7), ('m**2*%s**2/s', mm * 2 + one * 2 - ss), ('m/(%s**3*s)', mm - one * 3 - ss), ('(%s)', one)):
            if not l.isidentifier() and l != '%' and not l.startswith('('): continue
            s = t % l
            v = h.returns(h.run(lambda: q.Quantity(1.0, s)), '%r is parsed' % s)
            h.post('%r' % s, h.eqmap(h.map(v), m))
        if l[-1:].isalpha() and l[:1].isalpha():
            for s, m in (('m.%s' % l, mm + one), ('%s.m' % l, mm + one), ('m.%s.s' % l, mm + one + ss), ('m.s.%s.m' % l, mm * 2 + one + ss)):
                v = h.returns(h.run(lambda: q.Quantity(1.0, s)), '%r is parsed' % s)
                h.post('%r' % s, h.eqmap(h.map(v), m))

@case('C09', funcs=['UnitRegistry.__getitem__'], symbolic=False, runs=200)
def signs_and_words(h):
    """'^', '.', '·', '%', 'in' and the empty string mean **, *, *, percent, inch and dimensionless"""
    q, r = h.q, h.r
    parse = lambda s: h.returns(h.run(lambda: q.unit_registry[s]), '%r is parsed' % s)
    h.post('the empty string', parse('') is q.dimensionless)
    for s in ('in', 'IN', 'In'): h.post('inch', parse(s) is q.inch)
    h.post('percent', parse('%') is q.percent)
    words = [('in', q.inch), ('%', q.percent), ('as', q.unit_registry['attosecond']), ('m', q.m), ('s', q.s), ('min', q.minute), ('kg', q.kg), ('N', q.N), ('K', q.K), ('inch', q.inch), ('A', q.A), ('mol', q.mol), ('J', q.J)]
    n = r.randint(1, 4)
    s, m, prev = '', h.empty(), None
    for i in range(n):
        w, u = r.choice(words)
        dot = prev is not None and prev[-1].isalpha() and w[0].isalpha()
        op = '' if prev is None else r.choice(['*', '/', '·', ' * ', ' / '] + (['.', '.'] if dot else []))
        e = r.choice([None, None, None, ('^2', 2), ('**2', 2), ('^-1', -1), ('**0.5', 0.5), ('^(-2)', -2), (' ^ 3', 3)])
        k = e[1] if e else 1
        s += op + w + (e[0] if e else '')
        m = m + h.one(u) * (-k if '/' in op else k)
        prev = e[0] if e else w
    h.note('text', s)
    h.post('%r' % s, h.eqmap(h.map(h.returns(h.run(lambda: q.Quantity(1.0, s)), '%r is parsed' % s)), m))
    h.post('%r' % s, h.eqmap(h.map(h.returns(h.run(lambda: q.Quantity(1.0, 'm').rescale(s + '*m' if not h.base(m) else 'm')))), m + h.one(q.m) if not h.base(m) else h.one(q.m)))

# ------------------------------------------------------------------ C20: the other formats
UNITS_HOW = ['unicode', 'latex', 'html']
@case('C20', funcs=['format_units_unicode', 'format_units_latex', 'format_units_html', 'superscript'], symbolic=False, runs=600, unicode=[False, True], how=UNITS_HOW)
def typeset_text(h, how, unicode):
    """the other formats differ from the plain text in the typesetting of products, quotients and exponents only"""
    h.use_unicode(unicode)
    d = h.text_dims('d')
    m = h.map(d)
    plain = h.q.markup.format_units(d)
    num, den = h.tokens(plain, m, 'u_symbol' if unicode else 'symbol')
    if how == 'unicode':
        want = typeset(num, den, uni_factor, '·')
        h.post('the unicode text', h.returns(h.run(lambda: d.unicode)) == want)
        h.post('the unicode text', h.returns(h.run(lambda: h.q.markup.format_units_unicode(d))) == want)
    elif how == 'html':
        want = typeset(num, den, html_factor, '&sdot;')
        h.post('the HTML text', h.returns(h.run(lambda: d.html)) == want)
        h.post('the HTML text in a font', h.returns(h.run(lambda: h.q.markup.format_units_html(d, font='<b>%s</b>', mult=' x '))) == '<b>%s</b>' % typeset(num, den, html_factor, ' x '))
        got = h.returns(h.run(lambda: h.q.markup.format_units_html(d, paren=True)))
        h.post('the HTML text in parentheses', got == '(%s)' % want or want[0] == '(' and want[-1] == ')' and got == want)
    else:
        body = latex_body(num, den, r'{\cdot}')
        h.post('the LaTeX text', h.returns(h.run(lambda: d.latex)) == r'$\mathrm{%s}$' % body)
        h.post('the LaTeX text in a font', h.returns(h.run(lambda: h.q.markup.format_units_latex(d, font='mathit', mult=''))) == r'$\mathit{%s}$' % latex_body(num, den, '{}'))
        got = h.returns(h.run(lambda: h.q.markup.format_units_latex(d, paren=True)))
        h.post('the LaTeX text in parentheses', got == r'$\mathrm{\left(%s\right)}$' % body or not den and len(num) == 1 and num[0][0][0] == '(' and num[0][1] is None and got == r'$\mathrm{%s}$' % body)
    h.post('the dimensionality is unchanged', h.eqmap(h.map(d), m))

SUP = dict(zip('0123456789', '⁰¹²³⁴⁵⁶⁷⁸⁹'))
def inner(sym, f, mult):
    """the text of a compound unit is an expression itself"""
    if not sym.startswith('('): return sym
    import re
    out = re.sub(r'\*\*(\d+(?:\.\d+)?(?:e[+-]?\d+)?)', lambda k: f('', k.group(1)), sym)
    return out.replace('*', mult)
def uni_factor(sym, e, mult='·'):
    if e is None: return inner(sym, uni_factor, mult)
    return inner(sym, uni_factor, mult) + (''.join(SUP[c] for c in e) if e.isdigit() else '^' + e)
def html_factor(sym, e, mult='&sdot;'):
    return inner(sym, html_factor, mult) + ('' if e is None else '<sup>%s</sup>' % e)
def latex_factor(sym, e, mult=r'{\cdot}'):
    return inner(sym, latex_factor, mult) + ('' if e is None else '^{%s}' % e)
def side(factors, f, mult): return mult.join(f(s, e, mult) for s, e in factors)
def typeset(num, den, f, mult):
    if not num and not den: return 'dimensionless'
    n = side(num, f, mult) or '1'
    if not den: return n
    return n + '/' + ('(%s)' if len(den) > 1 else '%s') % side(den, f, mult)
def latex_body(num, den, mult):
    if not num and not den: return 'dimensionless'
    n = side(num, latex_factor, mult) or '1'
    if not den: return n
    return r'\frac{%s}{%s}' % (n, ('(%s)' if len(den) > 1 else '%s') % side(den, latex_factor, mult))

# ------------------------------------------------------------------ C20: displayed quantities
@case('C20', funcs=['Quantity.__str__', 'Quantity.__repr__', 'Quantity.__format__', 'UncertainQuantity.__str__', 'UncertainQuantity.__repr__', 'Dimensionality.__str__'], symbolic=False, runs=300, unicode=[False, True])
def shown_quantity(h, unicode):
    q = h.q
    h.use_unicode(unicode)
    d = h.text_dims('d')
    m = h.map(d)
    a = h.r.choice([2.5, -1.0, 3, np.float32(0.1), 1e-20, [1.0, 2.0], [[1, 2], [3, 4]], np.nan, np.arange(2000), [], [0.5], True])
    a = np.array(a)
    x = q.Quantity(a, d)
    units = d.unicode if unicode else d.string
    h.post('str of the dimensionality', h.returns(h.run(lambda: str(d))) == units)
    h.post('str', h.returns(h.run(lambda: str(x))) == str(a) + ' ' + units)
    h.post('repr', h.returns(h.run(lambda: repr(x))) == repr(a) + ' * ' + d.string)
    h.post('format', h.returns(h.run(lambda: format(x))) == ('%s %s' % (a.item(), units) if a.ndim == 0 else str(x)))
    h.post('format', h.returns(h.run(lambda: '%s' % x)) == str(x))
    if a.ndim == 0:
        for spec in ('.3f', 'g', '>12.2e', '+.1f') if a.dtype.kind != 'b' else ('d',):
            h.post('format', h.returns(h.run(lambda: format(x, spec))) == '%s %s' % (format(a.item(), spec), units))
    s = np.array(np.abs(a) * 0.125)
    u = q.UncertainQuantity(a, d, s)
    pm, sg = ('±', 'σ') if unicode else ('+/-', ' sigma')
    h.post('str with an uncertainty', h.returns(h.run(lambda: str(u))) == '%s %s\n%s%s %s (1%s)' % (u.magnitude, units, pm, s, units, sg))
    h.post('repr with an uncertainty', h.returns(h.run(lambda: repr(u))) == 'UncertainQuantity(%r, %s, %r)' % (u.magnitude, d.string, np.asarray(u.uncertainty)))
    h.post('the dimensionality is unchanged', h.eqmap(h.map(x), m))

@case('C20', funcs=['UnitQuantity.__str__', 'UnitQuantity.__repr__'], symbolic=False, runs=100, unicode=[False, True])
def shown_unit(h, unicode):
    """a unit shows its name, its symbol and its definition"""
    q = h.q
    h.use_unicode(unicode)
    u = h.catalogue_unit()
    sym = u.u_symbol if unicode else u.symbol
    s = h.returns(h.run(lambda: str(u)))
    h.post('str', s in ('1 %s (%s)' % (sym, u.name), '1 %s' % u.name) and (sym == u.name or sym in s))
    r = h.returns(h.run(lambda: repr(u)))
    if isinstance(u, q.CompoundUnit):
        h.post('repr', r == s == '1 ' + sym)
        return
    h.post('repr', r.startswith('%s(%r' % (type(u).__name__, u.name)) and (sym == u.name or repr(sym) in r))
    if u.definition is not u and u.simplified.dimensionality != u.dimensionality:
        h.post('repr has the definition', '%s * %s' % (u.definition.magnitude, u.definition.dimensionality.string) in r)
    f = h.returns(h.run(lambda: format(u)))
    h.post('format', f == '1.0 %s' % (u.dimensionality.unicode if unicode else u.dimensionality.string))

@case('C20 C09', funcs=['format_exponent'], symbolic=False, runs=2000, core=True)
def exponent_digits(h):
    """the text of an exponent is that number, without insignificant zeros"""
    from fractions import Fraction
    r = h.r
    x = r.choice([r.randint(0, 10 ** r.randint(1, 25)), r.uniform(0, 10 ** r.randint(-9, 25)), round(r.uniform(0, 100), r.randint(0, 6)), float(r.randint(0, 1000)), r.randint(1, 999) / 1000, 10.0 ** r.randint(-12, 25), Fraction(r.randint(1, 50), r.randint(1, 50)), np.float64(r.randint(0, 40) / 4), np.int64(r.randint(0, 400))])
    h.note('exponent', x)
    s = h.returns(h.run(lambda: h.q.markup.format_exponent(x)))
    import re
    mt = re.fullmatch(r'\d+(\.\d+)?(e[+-]?\d+)?', s)
    h.post('a decimal number without insignificant zeros', bool(mt) and not (mt.group(1) and mt.group(1)[-1] == '0'))
    h.post('the same number', float(s) == float(x) and (not isinstance(x, int) or int(float(s)) == int(s) or '.' not in s and int(s) == x))
