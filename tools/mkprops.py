"""Writes /verif/properties.jsonl (the properties are kept here in readable form)."""
import json, os
Q='quantities/quantity.py'; D='quantities/dimensionality.py'; U='quantities/unitquantity.py'
N='quantities/uncertainquantity.py'; M='quantities/umath.py'; R='quantities/registry.py'; K='quantities/markup.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p('C01','Products, quotients and powers carry the algebraically correct units',
 'For any two quantities, units or plain numbers, the product (quotient) has for every base unit the sum (difference) of the operands\' exponents, and a power (also square, square root and reciprocal) has every exponent multiplied by the power; units whose exponent becomes zero disappear, the magnitudes are those numpy computes on the bare numbers, and neither operand is changed. '
 'The reflected forms give the same result and the in-place forms leave exactly that result in the left operand. '
 'A power with units, or that is not uniform over the array, is refused.',
 ['inputs','programs'],'all pairs of operands (arrays of any shape and dtype, units, numbers), all unit sets and all integer or fractional exponents, in every operator form',
 'The tests multiply a handful of units with small integer exponents; cancellation, fractional exponents, reflected and in-place forms over arbitrary unit maps cannot be enumerated.',
 [D,Q,U],[('Dimensionality.__mul__/__truediv__/__pow__ and in-place forms',D),('p_dict handlers for multiply, divide, power, square, sqrt, reciprocal',D),('Quantity operators, check_uniform, __array_wrap__/__array_prepare__',Q),('UnitQuantity operators',U)],
 ['result.dimensionality','result.magnitude','operands after the call'],[('Dimensionality','finite map unit -> non-zero exponent',D)])
p('C02','Sums and differences convert units and refuse incompatible ones',
 'Adding, subtracting or taking the remainder of two quantities gives a quantity in the units of the left operand (the quantity in whose units the sum is expressed is the left one also when that is a unit) whose physical value is the sum, difference or remainder of the operands\' physical values. '
 'If the operands do not measure the same physical dimension (a plain number counting as dimensionless; a plain zero may be taken as compatible with anything) ValueError is raised and nothing is changed. '
 'In-place forms change the left operand\'s magnitudes only: its units stay, and the right operand is never modified.',
 ['inputs','programs'],'all pairs of compatible and incompatible operands (arrays, scalars, units, numbers), integer and float dtypes, normal, reflected and in-place forms',
 'Tests cover a few unit pairs; compatibility, the choice of result units and the absence of side effects must hold for every pair of units and dtypes.',
 [Q,D,U],[('scale_other_units; Quantity.__add__/__radd__/__iadd__/__sub__/__rsub__/__isub__/__mod__/__imod__',Q),('_d_check_uniform',D),('UnitQuantity additive operators',U)],['result','operands after the call','exception'])
p('C03','Rescaling preserves the physical value and delivers the requested units',
 'Rescaling a quantity (or assigning its units) to compatible units yields exactly the requested units and, for every element, a magnitude equal to the old magnitude times the ratio of the two units\' sizes, for integer as well as floating-point data (no truncation). '
 'Rescaling to incompatible units, or to something that is not a unit (wrong type, more than one element, magnitude other than one), raises an exception and leaves the quantity unchanged. '
 'A requested dtype is the one of the result, or the result type can hold it. rescale never modifies its operand, and rescaling to the preferred units, the dimensionless magnitude and rescaling to the present units obey the same rule.',
 ['inputs'],'all quantities and all target units given as unit, string, unit-magnitude quantity or dimensionality; all dtypes',
 'The tests convert a dozen unit pairs; the guarantee is over the closure of all compound units and dtypes.',
 [Q,U],[('Quantity.rescale, Quantity.units setter, rescale_preferred, dimensionless_magnitude',Q),('get_conversion_factor, validate_unit_quantity, validate_dimensionality',Q),('UnitQuantity._reference',U)],['result.dimensionality','result.magnitude'])
p('C04','Conversion factors are coherent',
 'The conversion factor from a unit to itself is one, the factor from a to b times the factor from b to c equals the factor from a to c, and the factor from b to a is the reciprocal of that from a to b. '
 'The factor of a product, quotient or power of units is the product, quotient or power of their factors, and the factor of a derived unit is the number in its definition times the factor of the defining units. '
 'A factor exists exactly when the two units reduce to the same base dimensions; otherwise the request is refused.',
 ['inputs'],'all pairs and triples of simple and compound units, including units defined by the user',
 'Tests sample single conversions; coherence is a statement about all pairs and triples of units including user-defined ones.',
 [Q,U],[('get_conversion_factor',Q),('Quantity._reference',Q),('UnitQuantity._reference, UnitQuantity.__new__ (_conv_ref)',U)],['conversion factor'],[('_conv_ref','cached size of a unit in irreducible units',U)])
p('C05','Simplification uses the current default units and keeps the physical value',
 'The simplified form of a quantity has the same physical value, is expressed only in the currently selected default units (and dimensionless ones), and simplifying it again changes nothing. '
 'Selecting a default unit or a unit system takes effect for every later simplification, affects no other dimension, and never changes an existing quantity\'s value. '
 'A default that measures a different dimension, or an unknown system name, is refused with an error and leaves the default for that dimension as it was.',
 ['inputs','histories'],'all quantities and all sequences of default-unit selections',
 'Tests check a few units under SI and cgs; the guarantee ranges over histories of selections and all units.',
 [U,Q,D],[('IrreducibleUnit.simplified, get_default_unit, set_default_unit; set_default_units',U),('Quantity.simplified',Q),('Dimensionality.simplified',D)],['simplified'],[('_default_unit','selected default per irreducible unit class',U)])
p('C06','Comparisons compare physical values',
 'Comparing two quantities of the same physical dimension with <, <=, ==, !=, >= or > gives, element by element, the comparison of their physical values whatever units (of positive size) each is written in. '
 'For quantities of different dimensions == is everywhere false and != everywhere true, while the ordering comparisons raise ValueError. '
 'Comparisons return plain booleans and change neither operand.',
 ['inputs'],'all pairs of quantities or units, compatible or not, all shapes and dtypes',
 'Tests compare a few same-unit pairs; the statement is about all unit pairs in both operand orders.',
 [Q],[('wrap_comparison, Quantity.__lt__ ... __gt__, __eq__, __ne__',Q)],['result','exception'])
p('C07','Dimensionalities are equal exactly when they are the same unit-to-exponent map',
 'Two dimensionalities are equal exactly when they contain the same units with the same exponents, independent of the order in which they were built; equal ones hash equal, and != is the negation of ==. '
 'Adding or subtracting dimensionalities returns the common one when they are equal and raises ValueError otherwise, and a non-dimensionality operand raises TypeError. '
 'The operations that are not in-place never modify their operands.',
 ['inputs','programs'],'all finite maps from units to non-zero exponents, including negative and fractional exponents',
 'Tests compare a few maps; equality goes through a hash whose per-entry encoding must separate every pair of different maps.',
 [D],[('Dimensionality.__hash__/__eq__/__ne__/__add__/__sub__ and in-place forms/copy',D),('UnitQuantity.__hash__',U)],['==, hash, exception'])
p('C08','Units are immutable and registered names are never rebound',
 'No operation changes a unit: its magnitude stays one, in-place arithmetic and assignment of its units are refused with an error, item assignment is refused, and using it in any expression leaves its name, symbol, definition and conversion unchanged. '
 'A name, symbol or alias once registered keeps denoting the same unit: registering it again for an equal unit is a no-op and for a different one raises KeyError without rebinding it. '
 'Two units of different name are different dictionary keys, and a unit\'s hash never changes.',
 ['inputs','histories'],'all units and all sequences of operations and registrations',
 'Tests try one in-place operation and one re-registration; immutability is over every operation and history.',
 [U,R],[('UnitQuantity.__new__ (writeable flag), in-place operators, units setter, __hash__',U),('UnitRegistry.__Registry.__setitem__',R)],['unit attributes','registry lookups','exceptions'],[('__context','registered name -> unit',R)])
p('C09','Unit strings are parsed safely and round-trip',
 'A unit string is evaluated only if it is an arithmetic expression over registered names and numbers; anything else (calls, attribute access, subscripts, comprehensions, unregistered names) is refused with an error and runs no code. '
 'The exponent sign ^, the dot and middle-dot product signs, %, the empty string and "in" mean **, *, percent, dimensionless and inch. '
 'Parsing the string form of any dimensionality made of named units gives back the same dimensionality.',
 ['inputs'],'all strings, and all dimensionalities over registered units with integer or short decimal exponents',
 'Tests parse about twenty strings; the guarantee is over all strings, and the round trip over all unit maps.',
 [R,K,Q],[('UnitRegistry.__getitem__, __Registry.__getitem__, whitelist',R),('format_units, format_exponent',K),('validate_dimensionality',Q)],['parsed unit','exception'])
p('C10','numpy universal functions follow the rules of dimensional analysis',
 'Calling a numpy ufunc on quantities (and plain numbers, with or without an output quantity distinct from an exponent) gives the units dimensional analysis prescribes: sums, remainders, minimum/maximum, comparisons and hypot require equal units (a plain zero fits any) and keep them; negative, absolute, rint, floor, ceil and conjugate keep units; multiply, divide, floor_divide, square, sqrt, reciprocal and power combine them; arc functions give radians and arctan2 of equal units a plain angle. Logarithms, exponentials, logaddexp and inverse trigonometric functions refuse operands with units, sin, cos, tan and the hyperbolic ones refuse operands whose units are not equal to a radian, and degrees/radians operands not in radians/degrees. A ufunc without a rule raises ValueError instead of returning a number with wrong units; the magnitudes are always the ones numpy computes on the bare numbers.',
 ['inputs'],'all registered ufuncs, all operand kinds and units, with and without an output array',
 'Tests call most ufuncs once with one unit; the rules are for all units and for mixed quantity and plain operands.',
 [D,Q],[('p_dict and its handlers',D),('Quantity.__array_prepare__/__array_wrap__',Q)],['result units','exception'],[('p_dict','ufunc -> rule',D)])
p('C11','Functions of the umath module convert units before computing',
 'The module-level mathematical functions give the value for the physical quantity whatever compatible units it is written in: trigonometric functions convert to radians and return dimensionless results, inverse ones convert to dimensionless and return radians, hyperbolic ones convert to dimensionless, and arctan2 depends only on the physical ratio. '
 'sum, nansum, cumsum, diff and ediff1d keep units, prod multiplies them, cross multiplies the operands\' units, gradient divides by the spacing\'s units and trapz multiplies by the sample\'s units. '
 'Operands of the wrong dimension are refused with ValueError, a plain number mixed with quantities counts as dimensionless (at the ends of ediff1d: as in the units of the array), and plain arrays alone behave as in numpy.',
 ['inputs'],'all compatible and incompatible units and arrays',
 'Tests use radians, degrees or metres once per function.',
 [M],[('the functions of umath',M)],['result value and units','exception'])
p('C12','Reductions and array methods keep, square or power the units correctly',
 'sum, nansum, mean, nanmean, std, nanstd, min, max, nanmin, nanmax, ptp, cumsum, round, trace, squeeze and clip return the numpy result on the magnitudes with the units of the operand, var with the square of the units, and prod with the units to the power of the number of elements multiplied; cumprod is refused unless dimensionless. '
 'Axis, dtype and ddof arguments have numpy\'s meaning; with an output quantity the result is written to it, it gets the result units and is returned, and where the output is not a quantity TypeError is raised. '
 'astype keeps the units and gives the numbers in the requested type; argmin, argmax, argsort and nonzero return plain indices, and the operand is never changed.',
 ['inputs'],'all arrays, shapes, dtypes, axes, units and output arrays',
 'Tests call each method on one small array.',
 [Q],[('the reduction and selection methods of Quantity',Q)],['result','out','operand'])
p('C13','Reading and writing elements converts units',
 'Indexing and iterating give quantities with the units of the whole; tolist gives scalar quantities with those units. '
 'Assigning, or putting, a compatible quantity stores its value converted to the units of the array, and searchsorted refuses values in different units; clip converts its limits; fill replaces all values and takes over the units of the value. '
 'Storing a value of an incompatible dimension (a plain number in an array with units included) raises an error and changes nothing, and neither the units of the array nor the stored value object change.',
 ['inputs','programs'],'all arrays, index expressions and stored values',
 'Tests assign one or two elements in one unit.',
 [Q],[('Quantity.__getitem__/__setitem__/put/searchsorted/tolist/clip/fill',Q)],['elements','exception'])
p('C14','Units of shared data cannot be changed behind another array\'s back',
 'An in-place multiplication, division, floor division or power that would change the units of a quantity that is a view of another quantity (a slice, reshaped, transposed or squeezed form, real part, ...) is refused with ValueError and changes nothing, as is assigning units to a view or to a read-only array. '
 'The dimensionality a quantity hands out is an independent copy: changing it, or changing a derived quantity\'s units, never changes the units of the quantity it came from. '
 'magnitude is a view: writing to it writes the quantity\'s data, and its units are untouched.',
 ['inputs','programs','histories'],'all sequences of view-taking and in-place operations',
 'Tests check a single slice; aliasing is a property of histories of views and in-place operations.',
 [Q,D],[('protected_multiplication, protected_power, units setter',Q),('Quantity.dimensionality, Quantity.__array_finalize__',Q),('Dimensionality.copy',D)],['units of the other array','exception'])
p('C15','Pickling, copying and deep-copying preserve value and units and share nothing',
 'Unpickling a pickled quantity, uncertain quantity, unit, compound unit or dimensionality gives an equal object of the same class with the same magnitudes, dtype, units and uncertainty. '
 'copy and deepcopy do so too; a copied quantity shares no data or units with the original, and a copied unit is the same unit. '
 'Units re-created by unpickling are interchangeable with the registered ones in every later computation.',
 ['inputs','histories'],'all objects and pickle protocols, round trips of any depth',
 'Tests pickle five objects.',
 [Q,U,N,D],[('Quantity.__reduce__/__setstate__/__deepcopy__, _reconstruct_quantity',Q),('UnitQuantity.__reduce__/__setstate__/copy; CompoundUnit, Dimensionless variants',U),('UncertainQuantity.__reduce__/__setstate__/__deepcopy__/copy',N)],['the copy','the original after changing the copy'])
p('C16','Uncertainties propagate by the standard independent-error formulas',
 'For + and - the absolute uncertainties add in quadrature after conversion to common units; for * and / the result uncertainty is the root sum of squares of each operand\'s uncertainty times the other\'s partial derivative; for a power n it is |n x^(n-1)| times the uncertainty. '
 'Plain numbers, quantities and units count as exact, operand order does not matter, and in-place forms leave the same result in the left operand. '
 'The result uncertainty is never negative, is in the units of the result, and the magnitude and units are those of the same operation without uncertainties; sums and means combine element uncertainties in quadrature.',
 ['inputs'],'all uncertain quantities, operand kinds, signs of magnitudes and exponents',
 'Tests use one positive value per operator.',
 [N,U],[('UncertainQuantity arithmetic, sum, mean, nansum, nanmean, sqrt',N),('UnitQuantity operators with an uncertain right operand',U)],['result.uncertainty'])
p('C17','An uncertainty always has the units and shape of its data',
 'Constructing an uncertain quantity or assigning its uncertainty converts the uncertainty to the units of the data and refuses with ValueError one of another shape or of incompatible units. '
 'Rescaling, simplifying, assigning units, converting the dtype, indexing or slicing, max and min and copying transform the uncertainty exactly as the data, so that it keeps describing the same physical error of the same element. '
 'The relative uncertainty is the uncertainty divided by the magnitude and does not depend on units.',
 ['inputs','histories'],'all uncertain quantities, index expressions and unit changes',
 'Tests construct and rescale two or three quantities.',
 [N],[('UncertainQuantity.__new__, uncertainty setter, units setter, rescale, simplified, astype, copy, __getitem__, max/min',N)],['uncertainty'],[('_uncertainty','absolute uncertainty as a quantity',N)])
p('C18','The unit catalogue agrees with the standard definitions',
 'Every unit in the catalogue converts to SI base units with the factor and base dimensions of its standard definition. '
 'Wherever a unit\'s name, symbol or alias is an attribute of the package or is accepted in a unit string, it denotes that unit. '
 'SI prefixes multiply by exactly their power of ten, and binary prefixes by their power of 1024.',
 ['inputs'],'all units, symbols and aliases of the catalogue',
 'The tests check the size of a handful of the several hundred units.',
 ['quantities/units/length.py','quantities/units/prefixes.py','quantities/units/energy.py','quantities/units/pressure.py','quantities/units/volume.py','quantities/units/mass.py','quantities/units/__init__.py'],[('definitions in quantities/units','quantities/units'),('UnitQuantity registration',U)],['size and dimensions of each unit'])
p('C19','Physical constants have the CODATA values and units',
 'Every constant of the constants package has the value and units of the CODATA table entry it is named after, converted consistently to SI. '
 'Names that denote the same constant are equal, and related constants (for example h and hbar, or e and the electron volt relationship) agree with each other within the table\'s precision. '
 'Using a constant in expressions never changes it, and its name is not a unit string for it.',
 ['inputs'],'all constants',
 'The tests check a few constants.',
 ['quantities/constants/_utils.py','quantities/constants/_codata.py','quantities/constants/quantum.py','quantities/constants/electromagnetism.py','quantities/constants/atomicunits.py'],[('_cd lookups','quantities/constants/_utils.py'),('UnitConstant',U)],['value and units of each constant'])
p('C20','Displayed units denote the actual units in every output format',
 'The plain, unicode, LaTeX and HTML renderings of a dimensionality name every unit with its exponent and nothing else: positive exponents before negative ones after the division, exponent one omitted, no digits of any exponent lost or altered, and the empty dimensionality shown as dimensionless. '
 'The unicode, LaTeX and HTML forms differ from the plain one only in how products, quotients and exponents are typeset. '
 'str, repr and format of a quantity show its magnitude together with these units, following the unicode setting.',
 ['inputs','configurations'],'all dimensionalities with integer and fractional exponents, both unicode settings',
 'Tests render about ten units.',
 [K,Q],[('format_exponent, format_units, format_units_unicode, format_units_latex, format_units_html, superscript',K),('Quantity.__str__/__repr__/__format__',Q)],['strings'])
p('C21','Constructing a quantity attaches exactly the requested units',
 'Constructing a quantity from numbers or an array gives those numbers with exactly the requested units (dimensionless when none are given), whether the units are given as a unit, a unit-magnitude quantity, a string or a dimensionality. '
 'Constructing one from another quantity converts it to the requested units, or refuses with ValueError, and keeps its units when none are requested. '
 'Anything that is not a unit (other types, arrays, quantities or strings whose magnitude is not one) is refused with an error, and the units argument is never modified or shared.',
 ['inputs'],'all data, dtypes and unit specifications',
 'Tests construct a few quantities.',
 [Q],[('Quantity.__new__',Q),('validate_dimensionality, validate_unit_quantity',Q),('Quantity.__array_finalize__',Q)],['dimensionality','magnitude','exception'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
