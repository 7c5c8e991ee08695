From 6e05c4e46c00360fc8bb4df85ff3ad0e94b8b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/66] fix: update the units of the output of in-place and
 out= ufunc calls on NumPy 2

---
 quantities/dimensionality.py | 2 +-
 quantities/quantity.py       | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c00190b..a28b3ae 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -338,7 +338,7 @@ def _d_clip(a1, a2, a3, q):
 if _np_version < (2, 0, 0):
     p_dict[np.core.umath.clip] = _d_clip
 else:
-    p_dict[np.clip] = _d_clip
+    p_dict[np._core.umath.clip] = _d_clip
 
 def _d_sqrt(q1, out=None):
     return q1._dimensionality**0.5
diff --git a/quantities/quantity.py b/quantities/quantity.py
index 74a425f..14476a9 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -327,10 +327,9 @@ class Quantity(np.ndarray):
                 return obj
         # For NumPy > 2.0 we either do the prepare or the wrap
         else:
-            if not isinstance(obj, Quantity):
-                return self.__array_prepare__(obj, context)
-            else:
-                return super().__array_wrap__(obj, context, return_scalar)
+            # obj is already a Quantity when it was passed as the output of the
+            # ufunc (in-place operators, out=...): its units need updating too
+            return self.__array_prepare__(obj, context)
 
 
     @with_doc(np.ndarray.__add__)
-- 
2.43.0


From 539be5e6ccdaa4be2dcedd751e9d551e73a8830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 02/66] fix: do not strip significant zeros from exponents in
 unit strings

---
 quantities/markup.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index d8d4284..258d424 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -41,6 +41,15 @@ def superscript(val):
             ret.append(s)
     return ''.join(ret)
 
+def format_exponent(d):
+    '''
+    string representation of an exponent, without insignificant trailing zeros
+    '''
+    res = '%s'%d
+    if '.' in res and 'e' not in res:
+        res = res.rstrip('0').rstrip('.')
+    return res
+
 def format_units(udict):
     '''
     create a string representation of the units contained in a dimensionality
@@ -61,12 +70,12 @@ def format_units(udict):
             u = key.symbol
         if d>0:
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**' + format_exponent(d)
             num.append(u)
         elif d<0:
             d = -d
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**' + format_exponent(d)
             den.append(u)
     res = '*'.join(num)
     if len(den):
-- 
2.43.0


From d0d60f088ae65a3dcb9db982c862a2e0dc1c3908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 03/66] fix: keep the whole exponent together in unicode, LaTeX
 and HTML units

---
 quantities/markup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 258d424..f839b45 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -30,7 +30,7 @@ config = _Config()
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
 def superscript(val):
-    items = re.split(r'\*{2}([\d]+)(?!\.)', val)
+    items = re.split(r'\*{2}(\d+)(?![\d.e])', val)
     ret = []
     while items:
         try:
@@ -128,7 +128,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Replace division (num/den) with \frac{num}{den}
         res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'^{\g<exp>}',res)
+    res = re.sub(r'\*{2,2}(?P<exp>\d+(?:\.\d+)?(?:e[+-]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -161,7 +161,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(r'\*{2,2}(?P<exp>\d+(?:\.\d+)?(?:e[+-]?\d+)?)',r'<sup>\g<exp></sup>',res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From 78983c571f593f1ba30b5ad03f6544f809b1e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 04/66] fix: deepcopy of a quantity must not share memory or
 lose the uncertainty

---
 quantities/quantity.py          |  6 ++++--
 quantities/uncertainquantity.py | 12 +++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 14476a9..366b882 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -804,8 +804,10 @@ class Quantity(np.ndarray):
                 state)
 
     def __deepcopy__(self, memo_dict):
-        # constructor copies by default
-        return Quantity(self.magnitude, self.dimensionality)
+        # the constructor does not copy
+        return Quantity(
+            copy.deepcopy(self.magnitude, memo_dict), self.dimensionality
+        )
 
 
 def _reconstruct_quantity(subtype, baseclass, baseshape, basetype,):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 319a6cc..f47c716 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -1,9 +1,11 @@
 """
 """
 
-import numpy as np
+import copy
 import warnings
 
+import numpy as np
+
 from . import markup, QuantitiesDeprecationWarning
 from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
@@ -284,3 +286,11 @@ class UncertainQuantity(Quantity):
         reconstruct, reconstruct_args, state = super().__reduce__()
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
+
+    def __deepcopy__(self, memo_dict):
+        return UncertainQuantity(
+            copy.deepcopy(self.magnitude, memo_dict),
+            self.dimensionality,
+            copy.deepcopy(self.uncertainty, memo_dict),
+            dtype=self.dtype
+        )
-- 
2.43.0


From ad36ff83d430771faec7e132ff924db766c47961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 05/66] fix: copy and deepcopy of units and dimensionalities

---
 quantities/unitquantity.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d5487fc..5f3a7eb 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -284,6 +284,13 @@ class UnitQuantity(Quantity):
                 )
             )
 
+    # units are immutable, and identified by their name and type
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo_dict):
+        return self
+
 unit_registry['UnitQuantity'] = UnitQuantity
 
 
-- 
2.43.0


From a2d2e7207ffed415b069fc45274d05309a5b5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 06/66] fix: setting the units of an UncertainQuantity

---
 quantities/uncertainquantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index f47c716..689dd02 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -37,8 +37,8 @@ class UncertainQuantity(Quantity):
 
     @Quantity.units.setter  # type: ignore[attr-defined]
     def units(self, units):
-        super()._set_units(units)
-        self.uncertainty.units = self._dimensionality
+        Quantity.units.fset(self, units)
+        self._uncertainty = self._uncertainty.rescale(self._dimensionality)
 
     @property
     def _reference(self):
-- 
2.43.0


From f0941c6130f657faa52ce55d6d799a05f826df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 07/66] fix: constructing an UncertainQuantity from another one

---
 quantities/uncertainquantity.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 689dd02..a39ebb4 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -28,10 +28,7 @@ class UncertainQuantity(Quantity):
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
-            is_copy = id(data) == id(ret)
-            if is_copy or ret._dimensionality != uncertainty._dimensionality:
-                uncertainty = data.uncertainty.rescale(ret.units)
-            ret.uncertainty = uncertainty
+            ret.uncertainty = data.uncertainty.rescale(ret._dimensionality)
 
         return ret
 
-- 
2.43.0


From 050518d4fe5dd3a3f50665dd77fbb4fd78003a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 08/66] fix: uncertainties of products, quotients and powers
 are never negative, nor nan at zero

---
 quantities/uncertainquantity.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index a39ebb4..32dc52e 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -117,10 +117,9 @@ class UncertainQuantity(Quantity):
     def __mul__(self, other):
         res = super().__mul__(other)
         try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
+            ou = other.uncertainty * self.view(Quantity)
+            su = self.uncertainty * other.view(Quantity)
+            u = (su**2+ou**2)**0.5
         except AttributeError:
             other = np.asanyarray(other)
             u = (self.uncertainty**2*other**2)**0.5
@@ -139,10 +138,9 @@ class UncertainQuantity(Quantity):
     def __truediv__(self, other):
         res = super().__truediv__(other)
         try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
+            ou = res.view(Quantity) * other.relative_uncertainty
+            su = self.uncertainty / other.view(Quantity)
+            u = (su**2+ou**2)**0.5
         except AttributeError:
             other = np.asanyarray(other)
             u = (self.uncertainty**2/other**2)**0.5
@@ -161,7 +159,9 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = res.view(Quantity) * other * self.relative_uncertainty
+        n = np.asarray(other)
+        u = n * self.magnitude**(n-1.0) * self.uncertainty.magnitude
+        res.uncertainty = Quantity(np.abs(u), res._dimensionality)
         return res
 
     @with_doc(Quantity.__getitem__, use_header=False)
-- 
2.43.0


From c4576a26cca762626d20590c7e6471d98bbb2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 09/66] fix: adding exact quantities to, and subtracting them
 from, an UncertainQuantity

---
 quantities/uncertainquantity.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 32dc52e..425a533 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -11,6 +11,13 @@ from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
 from .decorators import with_doc
 
+def _get_uncertainty(other):
+    # plain quantities are exact
+    try:
+        return other.uncertainty
+    except AttributeError:
+        return Quantity(0.0, other._dimensionality)
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -90,7 +97,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __add__(self, other):
         res = super().__add__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
+        u = (self.uncertainty**2+_get_uncertainty(other)**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__radd__, use_header=False)
@@ -102,7 +109,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __sub__(self, other):
         res = super().__sub__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
+        u = (self.uncertainty**2+_get_uncertainty(other)**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
-- 
2.43.0


From e253632a682c6ac9a96e5d62dbbcda5159bdd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 10/66] fix: units on the left of an operator must not drop the
 uncertainty of the right operand

---
 quantities/unitquantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 5f3a7eb..2a8535e 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -167,7 +167,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__add__, use_header=False)
     def __add__(self, other):
-        return self.view(Quantity).__add__(other)
+        return self.view(Quantity) + other
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
@@ -178,7 +178,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__sub__, use_header=False)
     def __sub__(self, other):
-        return self.view(Quantity).__sub__(other)
+        return self.view(Quantity) - other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
@@ -200,7 +200,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-        return self.view(Quantity).__mul__(other)
+        return self.view(Quantity) * other
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
@@ -208,7 +208,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
-        return self.view(Quantity).__truediv__(other)
+        return self.view(Quantity) / other
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-- 
2.43.0


From 78a00840ef9fea2ee6dd5d347fddceb3ccb1de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 11/66] fix: rescale an UncertainQuantity to the preferred
 units

---
 quantities/uncertainquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 425a533..e51ddbc 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -76,7 +76,7 @@ class UncertainQuantity(Quantity):
         return self.uncertainty.magnitude/self.magnitude
 
     @with_doc(Quantity.rescale, use_header=False)
-    def rescale(self, units, dtype=None):
+    def rescale(self, units=None, dtype=None):
         cls = UncertainQuantity
         ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
         ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
-- 
2.43.0


From d8c4efc7c83026e4f8c0641f85a7ca26d80627db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 12/66] fix: astype and copy of an UncertainQuantity must carry
 the uncertainty along

---
 quantities/uncertainquantity.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index e51ddbc..e277e69 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -82,6 +82,21 @@ class UncertainQuantity(Quantity):
         ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
         return ret
 
+    @with_doc(Quantity.astype, use_header=False)
+    def astype(self, dtype=None, **kwargs):
+        ret = self.view(Quantity).astype(dtype, **kwargs).view(UncertainQuantity)
+        ret.uncertainty = self.uncertainty.astype(dtype, **kwargs)
+        return ret
+
+    @with_doc(Quantity.copy, use_header=False)
+    def copy(self, order='C'):
+        ret = super().copy(order)
+        ret._uncertainty = self._uncertainty.copy(order)
+        return ret
+
+    def __copy__(self):
+        return self.copy('K')
+
     def __array_finalize__(self, obj):
         Quantity.__array_finalize__(self, obj)
         self._uncertainty = getattr(
-- 
2.43.0


From 8a1635530d833cc28b8050d2abcd114f84e7832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 13/66] fix: in-place operators must propagate the uncertainty

---
 quantities/uncertainquantity.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index e277e69..567ef83 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -186,6 +186,36 @@ class UncertainQuantity(Quantity):
         res.uncertainty = Quantity(np.abs(u), res._dimensionality)
         return res
 
+    def __iadd__(self, other):
+        u = (self + other).uncertainty
+        res = super().__iadd__(other)
+        res.uncertainty = u
+        return res
+
+    def __isub__(self, other):
+        u = (self - other).uncertainty
+        res = super().__isub__(other)
+        res.uncertainty = u
+        return res
+
+    def __imul__(self, other):
+        u = (self * other).uncertainty
+        res = super().__imul__(other)
+        res.uncertainty = u
+        return res
+
+    def __itruediv__(self, other):
+        u = (self / other).uncertainty
+        res = super().__itruediv__(other)
+        res.uncertainty = u
+        return res
+
+    def __ipow__(self, other):
+        u = (self ** other).uncertainty
+        res = super().__ipow__(other)
+        res.uncertainty = u
+        return res
+
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
         return UncertainQuantity(
-- 
2.43.0


From 871d9b3947e7f741fd722d8231ed80ac57b5798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 14/66] fix: nanmax, nanmin and the argmin family must honour
 axis and out

---
 quantities/quantity.py          | 28 ++++++++++++++++++----------
 quantities/uncertainquantity.py |  8 ++++----
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 366b882..490ee8a 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -593,10 +593,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return Quantity(
-            np.nanmax(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmax(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
@@ -611,10 +615,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return Quantity(
-            np.nanmin(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmin(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.argmin)
     def argmin(self, axis=None, out=None):
@@ -622,11 +630,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 567ef83..d3d858b 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -307,19 +307,19 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-        return self.magnitude.argmin()
+        return self.magnitude.argmin(axis, out)
 
     @with_doc(np.ndarray.argmax)
     def argmax(self,axis=None, out=None):
-        return self.magnitude.argmax()
+        return self.magnitude.argmax(axis, out)
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     def __setstate__(self, state):
         ndarray_state = state[:-2]
-- 
2.43.0


From 14c05d1ab57dfcc0580edf962c22eb7d45834a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 15/66] fix: max and min of an UncertainQuantity must honour
 axis

---
 quantities/uncertainquantity.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index d3d858b..cf00ba0 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -285,25 +285,32 @@ class UncertainQuantity(Quantity):
     def sqrt(self, out=None):
         return self**0.5
 
+    def _take_at(self, idx, axis):
+        if axis is None:
+            return self[np.unravel_index(idx, self.shape)]
+        idx = np.expand_dims(idx, axis)
+        return UncertainQuantity(
+            np.take_along_axis(self.magnitude, idx, axis).squeeze(axis),
+            self._dimensionality,
+            np.take_along_axis(
+                self.uncertainty.magnitude, idx, axis).squeeze(axis)
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._take_at(np.argmax(self.magnitude, axis), axis)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._take_at(np.nanargmax(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._take_at(np.argmin(self.magnitude, axis), axis)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._take_at(np.nanargmin(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-- 
2.43.0


From c0732487874018c1d8cd608d6e19b393783a767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 16/66] fix: arctan2 of quantities in different units of the
 same kind

---
 quantities/umath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 16bc412..7ad2a87 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -349,7 +349,8 @@ def arctan2(x1, x2, out=None):
         )
 
     return Quantity(
-        np.arctan2(x1.magnitude, x2.magnitude, out),
+        np.arctan2(
+            x1.magnitude, x2.rescale(x1._dimensionality).magnitude, out),
         radian,
         copy=False
     )
-- 
2.43.0


From 07cf7e622a1ca4c9b06562777bfdc376d7bb1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 17/66] fix: ediff1d must convert to_end and to_begin

---
 quantities/umath.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index 7ad2a87..de31198 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -73,6 +73,10 @@ def ediff1d(ary, to_end=None, to_begin=None):
     if not isinstance(ary, Quantity):
         return np.ediff1d(ary, to_end, to_begin)
 
+    if isinstance(to_end, Quantity):
+        to_end = to_end.rescale(ary.dimensionality).magnitude
+    if isinstance(to_begin, Quantity):
+        to_begin = to_begin.rescale(ary.dimensionality).magnitude
     return Quantity(
         np.ediff1d(ary.magnitude, to_end, to_begin),
         ary.dimensionality,
-- 
2.43.0


From eb674b24daf886f978f1c3613c7b10b18f8ee584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 18/66] fix: "in" as part of a units string

---
 quantities/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 7603965..6298fb2 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -77,7 +77,7 @@ class UnitRegistry:
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
         if "%" in label: label = label.replace("%", "percent")
-        if label.lower() == "in": label = "inch"
+        label = re.sub(r"\bin\b", "inch", label, flags=re.IGNORECASE)
 
         return self.__registry[label]
 
-- 
2.43.0


From cec7c8484682744fd2dd71e87440a5beaa77b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 19/66] fix: aliases of the foot

---
 quantities/units/length.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/length.py b/quantities/units/length.py
index 5634f75..e8c2d24 100644
--- a/quantities/units/length.py
+++ b/quantities/units/length.py
@@ -76,7 +76,7 @@ ft = foot = international_foot = UnitLength(
     'foot',
     12*inch,
     symbol='ft',
-    aliases=['feet', 'international_foot' 'international_feet']
+    aliases=['feet', 'international_foot', 'international_feet']
 )
 mi = mile = international_mile = UnitLength(
     'mile',
-- 
2.43.0


From 4613e5eb8b616b42b4d3e8919844dfe74a98a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 20/66] fix: clipping a dimensionless quantity to plain numbers

---
 quantities/quantity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 490ee8a..1aa0e16 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -661,6 +661,8 @@ class Quantity(np.ndarray):
                 "both min and max must be Quantities with compatible units"
             )
 
+        if not isinstance(min, Quantity): min = Quantity(min)
+        if not isinstance(max, Quantity): max = Quantity(max)
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-- 
2.43.0


From a03b1d4e84e244fc6b8705ad809cf295ffb9d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 21/66] fix: set_default_unit must raise TypeError for
 incompatible units

---
 quantities/unitquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 2a8535e..ee8702c 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -325,7 +325,7 @@ class IrreducibleUnit(UnitQuantity):
         try:
             # check that conversions are possible:
             get_conversion_factor(cls._default_unit, unit)
-        except ValueError:
+        except (AssertionError, ValueError):
             raise TypeError('default unit must be of same type')
         cls._default_unit = unit
 
-- 
2.43.0


From b814808aad86b081ecdf654e49030b6df954a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 22/66] fix: ufuncs of a quantity and an incompatible plain
 number must raise ValueError

---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index a28b3ae..6284799 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -269,7 +269,7 @@ def _d_check_uniform(q1, q2, out=None):
         except ValueError:
             raise ValueError(
                 'quantities must have identical units, got "%s" and "%s"' %
-                (q1.units, q2.units)
+                (getattr(q1, 'units', q1), getattr(q2, 'units', q2))
             )
 
 p_dict[np.add] = _d_check_uniform
-- 
2.43.0


From eac2e297fa28decf42b41518279095ed057b9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 23/66] fix: unit strings with a non-unit magnitude must be
 rejected, not silently dropped

---
 quantities/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 1aa0e16..e1f6577 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -31,9 +31,10 @@ def validate_unit_quantity(value):
 def validate_dimensionality(value):
     if isinstance(value, str):
         try:
-            return unit_registry[value].dimensionality
+            units = unit_registry[value]
         except (KeyError, UnicodeDecodeError):
-            return unit_registry[str(value)].dimensionality
+            units = unit_registry[str(value)]
+        return validate_unit_quantity(units).dimensionality
     elif isinstance(value, Quantity):
         validate_unit_quantity(value)
         return value.dimensionality
-- 
2.43.0


From e38090e246e08e1409fe8f83ab053f180b776958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 24/66] fix: constructing a quantity from another one with an
 empty dimensionality

---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index e1f6577..686b36f 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -122,7 +122,7 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            if units:
+            if units or isinstance(units, Dimensionality):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
                 return 1*data
-- 
2.43.0


From 6aa262d70e38ec94d28c9ee03391afd75377e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 25/66] fix: unwrap must use the period in the units of its
 argument

---
 quantities/umath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index de31198..7bbdfe8 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -397,7 +397,9 @@ def unwrap(p, discont=np.pi, axis=-1):
     discont = discont.rescale(p.units)
 
     return Quantity(
-        np.unwrap(p.magnitude, discont.magnitude, axis),
+        np.unwrap(
+            p.magnitude, discont.magnitude, axis,
+            period=Quantity(2*np.pi, radian).rescale(p.units).magnitude),
         p.units
     )
 
-- 
2.43.0


From 904bc647795e1895f74ed54c554d122e0bbec624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 26/66] fix: in-place powers with exponent zero, one, or a
 uniform array

---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 686b36f..75619ff 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -92,7 +92,7 @@ def check_uniform(f):
 def protected_power(f):
     @wraps(f)
     def g(self, other, *args):
-        if other != 1:
+        if np.any(other != 1):
             try:
                 assert not isinstance(self.base, Quantity)
             except AssertionError:
@@ -404,7 +404,7 @@ class Quantity(np.ndarray):
     @check_uniform
     @protected_power
     def __ipow__(self, other):
-        return super().__ipow__(other)
+        return np.power(self, other, out=self)
 
     def __round__(self, decimals=0):
         return np.around(self, decimals)
-- 
2.43.0


From 0f1d90f150826e356858d64625324b48e9dbfe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 27/66] fix: support unary plus

---
 quantities/dimensionality.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 6284799..6ffdf93 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -326,6 +326,7 @@ p_dict[np.fabs] = _d_copy
 p_dict[np.absolute] = _d_copy
 p_dict[np.conjugate] = _d_copy
 p_dict[np.negative] = _d_copy
+p_dict[np.positive] = _d_copy
 p_dict[np.ones_like] = _d_copy
 p_dict[np.rint] = _d_copy
 p_dict[np.floor] = _d_copy
-- 
2.43.0


From 4724ce00c885edd58b3d32845fe09417ea56c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 28/66] fix: convert a plain left operand of the remainder like
 that of a sum

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 75619ff..503a864 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -370,6 +370,11 @@ class Quantity(np.ndarray):
     def __mod__(self, other):
         return super().__mod__(other)
 
+    @with_doc(np.ndarray.__rmod__)
+    @scale_other_units
+    def __rmod__(self, other):
+        return np.remainder(other, self)
+
     @with_doc(np.ndarray.__imod__)
     @scale_other_units
     def __imod__(self, other):
-- 
2.43.0


From b6f6f40a0763bde07b0f5df99f18bd3d9f0dc516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 29/66] fix: refuse an exponent with units when it has
 magnitude one

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 503a864..48817e4 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -405,6 +405,11 @@ class Quantity(np.ndarray):
     def __pow__(self, other):
         return np.power(self, other)
 
+    @with_doc(np.ndarray.__rpow__)
+    def __rpow__(self, other):
+        # ndarray.__rpow__ ignores the units of an exponent with magnitude one
+        return np.power(other, self)
+
     @with_doc(np.ndarray.__ipow__)
     @check_uniform
     @protected_power
-- 
2.43.0


From 2b47610a7aaf5a8a0038b27f9896956ef6ee7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 30/66] fix: simplifying a unit without a definition
 (dimensionless) recursed without end

---
 quantities/unitquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index ee8702c..748da90 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -113,6 +113,9 @@ class UnitQuantity(Quantity):
 
     @property
     def simplified(self):
+        if self._conv_ref is None:
+            # not defined in terms of other units
+            return 1*self
         return self._reference.simplified
 
     @property
-- 
2.43.0


From 8a66aa7f139da0237156c56a9d7ede8d35b81c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 31/66] fix: the output of reductions must be a quantity and
 get the units of the result

---
 quantities/quantity.py | 93 ++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 53 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 48817e4..e3c739d 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -110,6 +110,14 @@ def wrap_comparison(f):
         return f(self, other)
     return g
 
+def _out_magnitude(out):
+    """The array to write into for the `out` argument of a method"""
+    if out is None:
+        return None
+    if not isinstance(out, Quantity):
+        raise TypeError("out parameter must be a Quantity")
+    return out.magnitude
+
 
 class Quantity(np.ndarray):
 
@@ -527,22 +535,22 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.sum(axis, dtype, None if out is None else out.magnitude)
+        ret = self.magnitude.sum(axis, dtype, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nansum(self.magnitude, axis, dtype, out),
-            self.dimensionality
-        )
+        ret = np.nansum(self.magnitude, axis, dtype, _out_magnitude(out))
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
@@ -589,12 +597,10 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        ret = self.magnitude.max(axis, None if out is None else out.magnitude)
+        ret = self.magnitude.max(axis, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
@@ -604,34 +610,28 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        ret = np.nanmax(self.magnitude, axis, None if out is None else out.magnitude)
+        ret = np.nanmax(self.magnitude, axis, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        ret = self.magnitude.min(axis, None if out is None else out.magnitude)
+        ret = self.magnitude.min(axis, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        ret = np.nanmin(self.magnitude, axis, None if out is None else out.magnitude)
+        ret = np.nanmin(self.magnitude, axis, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
@@ -649,12 +649,10 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
-        ret = np.ptp(self.magnitude, axis, None if out is None else out.magnitude)
+        ret = np.ptp(self.magnitude, axis, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
@@ -677,35 +675,29 @@ class Quantity(np.ndarray):
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-            out
+            _out_magnitude(out)
         )
         dim = self.dimensionality
         if out is None:
             return Quantity(clipped, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.ndarray.round)
     def round(self, decimals=0, out=None):
-        ret = self.magnitude.round(decimals, None if out is None else out.magnitude)
+        ret = self.magnitude.round(decimals, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.ndarray.trace)
     def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
-        ret = self.magnitude.trace(offset, axis1, axis2, dtype, None if out is None else out.magnitude)
+        ret = self.magnitude.trace(offset, axis1, axis2, dtype, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
@@ -718,50 +710,49 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.mean(axis, dtype, None if out is None else out.magnitude)
+        ret = self.magnitude.mean(axis, dtype, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
-            self.dimensionality)
+        ret = np.nanmean(self.magnitude, axis, dtype, _out_magnitude(out))
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.var(axis, dtype, out, ddof)
+        ret = self.magnitude.var(axis, dtype, _out_magnitude(out), ddof)
         dim = self._dimensionality**2
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.ndarray.std)
     def std(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.std(axis, dtype, out, ddof)
+        ret = self.magnitude.std(axis, dtype, _out_magnitude(out), ddof)
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
-        return Quantity(
-            np.nanstd(self.magnitude, axis, dtype, out, ddof),
-            self._dimensionality
-        )
+        ret = np.nanstd(self.magnitude, axis, dtype, _out_magnitude(out), ddof)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.prod)
     def prod(self, axis=None, dtype=None, out=None):
@@ -770,23 +761,19 @@ class Quantity(np.ndarray):
         else:
             power = self.shape[axis]
 
-        ret = self.magnitude.prod(axis, dtype, None if out is None else out.magnitude)
+        ret = self.magnitude.prod(axis, dtype, _out_magnitude(out))
         dim = self._dimensionality**power
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
     @with_doc(np.ndarray.cumsum)
     def cumsum(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.cumsum(axis, dtype, None if out is None else out.magnitude)
+        ret = self.magnitude.cumsum(axis, dtype, _out_magnitude(out))
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = dim
         return out
 
-- 
2.43.0


From 27f7c972d902abbdbea1289e372fc59e0ad5c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 32/66] fix: squeeze, real, imag and slices of uncertain
 quantities are views: their units are protected

---
 quantities/quantity.py          | 10 ++++------
 quantities/uncertainquantity.py | 13 ++++++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index e3c739d..32a11fc 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -168,7 +168,7 @@ class Quantity(np.ndarray):
 
     @property
     def real(self):
-        return Quantity(self.magnitude.real, self.dimensionality)
+        return super(Quantity, self.view(Quantity)).real
 
     @real.setter
     def real(self, r):
@@ -176,7 +176,7 @@ class Quantity(np.ndarray):
 
     @property
     def imag(self):
-        return Quantity(self.magnitude.imag, self.dimensionality)
+        return super(Quantity, self.view(Quantity)).imag
 
     @imag.setter
     def imag(self, i):
@@ -703,10 +703,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
-        return Quantity(
-            self.magnitude.squeeze(axis),
-            self.dimensionality
-        )
+        # a view of self, unlike Quantity(self.magnitude.squeeze(axis), ...)
+        return self.view(Quantity).reshape(self.magnitude.squeeze(axis).shape)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index cf00ba0..9f8db07 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -218,11 +218,14 @@ class UncertainQuantity(Quantity):
 
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
-        return UncertainQuantity(
-            self.magnitude[key],
-            self._dimensionality,
-            self.uncertainty[key]
-        )
+        ret = super().__getitem__(key)
+        if isinstance(ret, UncertainQuantity):
+            ret._uncertainty = self.uncertainty[key]
+            return ret
+        else:
+            return UncertainQuantity(
+                ret.magnitude, self._dimensionality, self.uncertainty[key]
+            )
 
     @with_doc(Quantity.__repr__, use_header=False)
     def __repr__(self):
-- 
2.43.0


From 569bd46d78953f32f063f7cebe69fcbf603d8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 33/66] fix: in-place floor division must not change the units
 of a view

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 32a11fc..0bcd58e 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -403,6 +403,11 @@ class Quantity(np.ndarray):
     def __itruediv__(self, other):
         return super().__itruediv__(other)
 
+    @with_doc(np.ndarray.__ifloordiv__)
+    @protected_multiplication
+    def __ifloordiv__(self, other):
+        return super().__ifloordiv__(other)
+
     @with_doc(np.ndarray.__rtruediv__)
     def __rtruediv__(self, other):
         return np.true_divide(other, self)
-- 
2.43.0


From dd09249bc371eef7ca5248a426bc327e0e186610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 34/66] fix: np.arctan2 must accept a dimensionless quantity
 and a plain number

---
 quantities/dimensionality.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 6ffdf93..2de328b 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -289,12 +289,14 @@ p_dict[np.minimum] = _d_check_uniform
 
 def _d_arctan2(q1, q2, out=None):
     try:
-        assert q1._dimensionality == q2._dimensionality
+        # an operand without units is dimensionless
+        assert getattr(q1, 'dimensionality', Dimensionality()) == \
+            getattr(q2, 'dimensionality', Dimensionality())
         return Dimensionality()
     except AssertionError:
         raise ValueError(
             'quantities must have identical units, got "%s" and "%s"' %
-            (q1.units, q2.units)
+            (getattr(q1, 'units', q1), getattr(q2, 'units', q2))
         )
 
 p_dict[np.arctan2] = _d_arctan2
-- 
2.43.0


From 91dc818626d8fe3adb6e73d72063eb2e9973eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 35/66] fix: np.logaddexp must check the units of both operands
 and set those of out

---
 quantities/dimensionality.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 2de328b..809fe91 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -378,8 +378,12 @@ p_dict[np.log1p] = _d_dimensionless
 p_dict[np.exp] = _d_dimensionless
 p_dict[np.exp2] = _d_dimensionless
 p_dict[np.expm1] = _d_dimensionless
-p_dict[np.logaddexp] = _d_dimensionless
-p_dict[np.logaddexp2] = _d_dimensionless
+
+def _d_logaddexp(q1, q2, out=None):
+    _d_dimensionless(q1)
+    return _d_dimensionless(q2)
+p_dict[np.logaddexp] = _d_logaddexp
+p_dict[np.logaddexp2] = _d_logaddexp
 
 def _d_trig(q1, out=None):
     try:
-- 
2.43.0


From 05c2245fd9df86b8b14b573b73286fe374e5837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 36/66] fix: a ufunc of plain operands must give an output
 quantity its own units

---
 quantities/quantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 0bcd58e..dda9318 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -316,6 +316,10 @@ class Quantity(np.ndarray):
         if uf.__name__.startswith('is'):
             return obj
 
+        if not any(isinstance(arg, Quantity) for arg in objs[:uf.nin]):
+            # only the output is a quantity: the operands are dimensionless
+            objs = tuple(Quantity(arg) for arg in objs[:uf.nin]) + tuple(objs[uf.nin:])
+
         try:
             res._dimensionality = p_dict[uf](*objs)
         except KeyError:
-- 
2.43.0


From 8994c42ab46c2b25cd7f68ce40628b9e7e1f33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 37/66] fix: cos and tan must fill the output array they are
 given

---
 quantities/umath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 7bbdfe8..937c01b 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -283,7 +283,8 @@ def cos(x, out=None):
     if not isinstance(x, Quantity):
         return np.cos(x, out)
 
-    return Quantity(np.cos(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.cos(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arccos)
 def arccos(x, out=None):
@@ -312,7 +313,8 @@ def tan(x, out=None):
     if not isinstance(x, Quantity):
         return np.tan(x, out)
 
-    return Quantity(np.tan(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.tan(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arctan)
 def arctan(x, out=None):
-- 
2.43.0


From 5868521efbcef86abebde699965759f00b001d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 38/66] fix: cross, arctan2 and unwrap must keep the units when
 one operand is a plain number

---
 quantities/umath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 937c01b..e7c78a1 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -109,7 +109,7 @@ def gradient(f, *varargs):
 
 @with_doc(np.cross)
 def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
-    if not (isinstance(a, Quantity) and isinstance(b, Quantity)):
+    if not (isinstance(a, Quantity) or isinstance(b, Quantity)):
         return np.cross(a, b, axisa, axisb, axisc, axis)
 
     if not isinstance(a, Quantity):
@@ -340,7 +340,7 @@ def arctan2(x1, x2, out=None):
 
     Returns a quantity in units of radians.
     """
-    if not (isinstance(x1, Quantity) and isinstance(x2, Quantity)):
+    if not (isinstance(x1, Quantity) or isinstance(x2, Quantity)):
         return np.arctan2(x1, x2, out)
 
     if not isinstance(x1, Quantity):
@@ -388,7 +388,7 @@ def hypot(x1, x2, out = None):
 
 @with_doc(np.unwrap)
 def unwrap(p, discont=np.pi, axis=-1):
-    if not (isinstance(p, Quantity) and isinstance(discont, Quantity)):
+    if not (isinstance(p, Quantity) or isinstance(discont, Quantity)):
         return np.unwrap(p, discont, axis)
 
     if not isinstance(p, Quantity):
-- 
2.43.0


From 86d5cd45ea817fb4ee55f5e32f01cb9b13e0f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 39/66] fix: gradient must accept plain arrays and spacings and
 return an array for one dimension, as numpy does

---
 quantities/umath.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index e7c78a1..cd4e3d4 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -93,19 +93,27 @@ def gradient(f, *varargs):
     #   if len(varargs) == 0:
     #       varargs = (Quantity(1),)
 
-    varargsQuantities = [Quantity(i, copy=False) for i in varargs]
-    varargsMag = tuple(i.magnitude for i in varargsQuantities)
-    ret = np.gradient(f.magnitude, *varargsMag)
-
-    if len(varargs) == 1:
+    if not any(isinstance(i, Quantity) for i in (f,) + varargs):
+        return np.gradient(f, *varargs)
+
+    f = Quantity(f, copy=False)
+    spacing = [Quantity(i, copy=False) for i in varargs]
+    ret = np.gradient(f.magnitude, *[i.magnitude for i in spacing])
+    if f.ndim == 1:
+        # np.gradient returns a single array
+        ret = (ret,)
+
+    if len(spacing) == 0:
+        ret = tuple(Quantity(i, f.units) for i in ret)
+    elif len(spacing) == 1:
         # if there was only one sample distance provided,
         # apply the units in all directions
-        return tuple( Quantity(i, f.units/varargs[0].units)  for i  in ret)
+        ret = tuple(Quantity(i, f.units/spacing[0].units) for i in ret)
     else:
         #give each output array the units of the input array
         #divided by the units of the spacing quantity given
-        return tuple( Quantity(i, f.units/j.units)
-                      for i,j  in zip( ret, varargsQuantities))
+        ret = tuple(Quantity(i, f.units/j.units) for i, j in zip(ret, spacing))
+    return ret[0] if f.ndim == 1 else ret
 
 @with_doc(np.cross)
 def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
-- 
2.43.0


From 9228ba073e70a3087262c608834f97deaaf44d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 40/66] fix: diff and ediff1d must not drop the units of the
 values added to the differences

---
 quantities/umath.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index cd4e3d4..4c7a724 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -66,13 +66,28 @@ def cumprod(a, axis=None, dtype=None, out=None):
 def cumsum(a,axis=None, dtype=None, out=None):
     return a.cumsum(axis, dtype, out)
 
-diff = np.diff
+@with_doc(np.diff)
+def diff(a, n=1, axis=-1, **kwargs):
+    if not kwargs or not any(
+            isinstance(i, Quantity) for i in (a, *kwargs.values())):
+        return np.diff(a, n, axis, **kwargs)
+
+    # np.diff drops the units of the values to prepend or append
+    a = Quantity(a, copy=False)
+    kwargs = {k: Quantity(v).rescale(a.dimensionality).magnitude
+              for k, v in kwargs.items()}
+    return Quantity(
+        np.diff(a.magnitude, n, axis, **kwargs),
+        a.dimensionality,
+        copy=False
+    )
 
 @with_doc(np.ediff1d)
 def ediff1d(ary, to_end=None, to_begin=None):
-    if not isinstance(ary, Quantity):
+    if not any(isinstance(i, Quantity) for i in (ary, to_end, to_begin)):
         return np.ediff1d(ary, to_end, to_begin)
 
+    ary = Quantity(ary, copy=False)
     if isinstance(to_end, Quantity):
         to_end = to_end.rescale(ary.dimensionality).magnitude
     if isinstance(to_begin, Quantity):
-- 
2.43.0


From 177dda8de159ad6aac80d2649e2ddd65938064fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 41/66] fix: hypot raised ValueError when given an output
 quantity

---
 quantities/umath.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index 4c7a724..36dad28 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -403,6 +403,9 @@ def hypot(x1, x2, out = None):
             % (str(x1._dimensionality), str(x2._dimensionality))
         )
 
+    if isinstance(out, Quantity):
+        return np.hypot(x1, x2, out)
+
     return Quantity(
         np.hypot(x1.magnitude, x2.magnitude, out),
         x1.dimensionality,
-- 
2.43.0


From 0cc9078461a9127e9b0a119188b3a5a67811b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 42/66] fix: adding an uncertain quantity and a larger exact
 array raised ValueError

---
 quantities/uncertainquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 9f8db07..bc910c5 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -16,7 +16,7 @@ def _get_uncertainty(other):
     try:
         return other.uncertainty
     except AttributeError:
-        return Quantity(0.0, other._dimensionality)
+        return Quantity(np.zeros(other.shape), other._dimensionality)
 
 class UncertainQuantity(Quantity):
 
-- 
2.43.0


From 12fc6eab44d741c58fe238bd6b4ea0f8b472b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 43/66] fix: a quantity plus or minus an uncertain one must be
 in the units of the left operand

---
 quantities/uncertainquantity.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index bc910c5..e1b089d 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -116,9 +116,11 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__radd__, use_header=False)
-    @scale_other_units
     def __radd__(self, other):
-        return self.__add__(other)
+        if not isinstance(other, Quantity):
+            return self.__add__(other)
+        # a sum is in the units of its left operand
+        return UncertainQuantity(other).__add__(self)
 
     @with_doc(Quantity.__sub__, use_header=False)
     @scale_other_units
@@ -128,12 +130,11 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
-    @scale_other_units
     def __rsub__(self, other):
-        if not isinstance(other, UncertainQuantity):
-            other = UncertainQuantity(other)
-
-        return UncertainQuantity.__sub__(other, self)
+        if not isinstance(other, Quantity):
+            other = Quantity(other).rescale(self.units)
+        # a difference is in the units of its left operand
+        return UncertainQuantity(other).__sub__(self)
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-- 
2.43.0


From 3efe4caceed346a45ef743890c9d33372c804ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 44/66] fix: the mean of an uncertain quantity over several
 axes raised TypeError

---
 quantities/uncertainquantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index e1b089d..578e3bd 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -270,10 +270,11 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
+        size = np.sum(np.ones(self.shape), axis)
         return UncertainQuantity(
             self.magnitude.mean(axis, dtype, out),
             self.dimensionality,
-            ((1.0/np.size(self,axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
+            ((1.0/size)**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
         )
 
     @with_doc(np.nanmean)
-- 
2.43.0


From bd6db8fe8f0cd2933be17469f888499efb68f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:37 +0000
Subject: [PATCH 45/66] fix: +x and abs(x) of an uncertain quantity lost its
 uncertainty

---
 quantities/uncertainquantity.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 578e3bd..d7f3cf0 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -157,6 +157,14 @@ class UncertainQuantity(Quantity):
     def __neg__(self):
         return self*-1
 
+    def __pos__(self):
+        return self.copy()
+
+    def __abs__(self):
+        return UncertainQuantity(
+            np.abs(self.magnitude), self._dimensionality, self.uncertainty
+        )
+
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
         res = super().__truediv__(other)
-- 
2.43.0


From 20e26ac4e2e3e4110ea905dd430d395762bb72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:10 +0000
Subject: [PATCH 46/66] fix: a numpy scalar plus, minus, times or over an
 uncertain quantity lost its uncertainty

---
 quantities/uncertainquantity.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index d7f3cf0..d69a4b3 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -18,6 +18,12 @@ def _get_uncertainty(other):
     except AttributeError:
         return Quantity(np.zeros(other.shape), other._dimensionality)
 
+# numpy scalars do not leave the operation to the reflected operators
+_reflected = {
+    'add': '__radd__', 'subtract': '__rsub__', 'multiply': '__rmul__',
+    'divide': '__rtruediv__', 'true_divide': '__rtruediv__'
+}
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -108,6 +114,18 @@ class UncertainQuantity(Quantity):
             )
         )
 
+    def __array_wrap__(self, obj, context=None, return_scalar=False):
+        res = super().__array_wrap__(obj, context, return_scalar)
+        if context is not None:
+            uf, args, _ = context
+            if (
+                uf.__name__ in _reflected and len(args) == 2
+                and not isinstance(args[0], Quantity)
+            ):
+                reflected = getattr(self, _reflected[uf.__name__])
+                res._uncertainty = reflected(args[0])._uncertainty
+        return res
+
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
-- 
2.43.0


From 01c5ab90b126633e8b78b1ba48843f1abf7cda97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 47/66] fix: squaring an integer array overflowed in the
 uncertainty of a product or quotient

---
 quantities/uncertainquantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index d69a4b3..530711c 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -163,7 +163,7 @@ class UncertainQuantity(Quantity):
             u = (su**2+ou**2)**0.5
         except AttributeError:
             other = np.asanyarray(other)
-            u = (self.uncertainty**2*other**2)**0.5
+            u = ((self.uncertainty*other)**2)**0.5
 
         res._uncertainty = u
         return res
@@ -192,7 +192,7 @@ class UncertainQuantity(Quantity):
             u = (su**2+ou**2)**0.5
         except AttributeError:
             other = np.asanyarray(other)
-            u = (self.uncertainty**2/other**2)**0.5
+            u = ((self.uncertainty/other)**2)**0.5
 
         res._uncertainty = u
         return res
-- 
2.43.0


From 68aca3964d0a6d99e1f325b162667c19b12feacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 48/66] fix: nansum and nanmean counted the uncertainties of
 the elements they leave out

---
 quantities/uncertainquantity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 530711c..b55599c 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -286,12 +286,16 @@ class UncertainQuantity(Quantity):
             (np.sum(self.uncertainty.magnitude**2, axis))**0.5
         )
 
+    def _nan_uncertainty(self):
+        # the elements that are not a number do not contribute
+        return np.where(np.isnan(self.magnitude), 0, self.uncertainty.magnitude)
+
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            (np.nansum(self.uncertainty.magnitude**2, axis))**0.5
+            (np.nansum(self._nan_uncertainty()**2, axis))**0.5
         )
 
     @with_doc(np.ndarray.mean)
@@ -309,7 +313,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nanmean(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude)**2, axis))**0.5
+            ((1.0/size)**2 * np.nansum(self._nan_uncertainty()**2, axis))**0.5
         )
 
     @with_doc(np.sqrt)
-- 
2.43.0


From 37c2a12197aecffdee91d0bd9b67ebeed4722f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 49/66] fix: an uncertainty must not follow the units of the
 quantity it was assigned from

---
 quantities/uncertainquantity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index b55599c..723d24f 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -75,7 +75,10 @@ class UncertainQuantity(Quantity):
             raise ValueError('data and uncertainty must have identical shape')
         if uncertainty._dimensionality != self._dimensionality:
             uncertainty = uncertainty.rescale(self._dimensionality)
-        self._uncertainty = uncertainty
+        # changing the units of the given quantity later does not change these
+        self._uncertainty = Quantity(
+            uncertainty.magnitude.copy(), self._dimensionality
+        )
 
     @property
     def relative_uncertainty(self):
-- 
2.43.0


From 65bebfdd91c3d46b4cdce5d045d52cc3834882d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 50/66] fix: constructing from a unit must honour the class and
 the dtype

---
 quantities/quantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index dda9318..9ca0312 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -133,7 +133,9 @@ class Quantity(np.ndarray):
             if units or isinstance(units, Dimensionality):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
-                return 1*data
+                ret = np.array(data.magnitude, dtype=dtype).view(cls)
+                ret._dimensionality = data.dimensionality
+                return ret
             return np.asanyarray(data, dtype=dtype).view(cls)
 
         ret = np.asarray(data, dtype=dtype).view(cls)
-- 
2.43.0


From 55b0db953a1881ebfa433f9eb73456049c5f3f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 51/66] fix: Quantity(quantity, units) ignored units that are
 falsy but not units (0, False, [], zero quantities)

---
 quantities/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 9ca0312..5d0bbd1 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -130,7 +130,8 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            if units or isinstance(units, Dimensionality):
+            # None and the empty string keep the units of the data
+            if not (units is None or isinstance(units, str) and units == ''):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
                 ret = np.array(data.magnitude, dtype=dtype).view(cls)
-- 
2.43.0


From 461e82f636a21ef796901096c7b24c4338a010c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 52/66] fix: copying a unit must return that unit
 (dimensionless.copy() failed, others got another display order)

---
 quantities/unitquantity.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 748da90..c1779c0 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -275,19 +275,10 @@ class UnitQuantity(Quantity):
             self.__getstate__()
         )
 
+    # units are immutable, and identified by their name and type
     def copy(self):
-        return (
-            type(self)(
-                self._name,
-                self._definition,
-                self._symbol,
-                self._u_symbol,
-                self._aliases,
-                self.__doc__
-                )
-            )
+        return self
 
-    # units are immutable, and identified by their name and type
     def __copy__(self):
         return self
 
@@ -410,9 +401,6 @@ class CompoundUnit(UnitQuantity):
             self.__getstate__()
             )
 
-    def copy(self):
-        return type(self)(self._name)
-
 unit_registry['CompoundUnit'] = CompoundUnit
 
 
-- 
2.43.0


From be1e8693e85010a055dcdf153b6fda68f0878c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:00 +0000
Subject: [PATCH 53/66] fix: the definition of a unit could be changed in
 place, and was shared with the caller

---
 quantities/unitquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index c1779c0..1d653d4 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -56,6 +56,9 @@ class UnitQuantity(Quantity):
         if definition is not None:
             if not isinstance(definition, Quantity):
                 definition *= dimensionless
+            # the definition is part of the unit: not shared, nor writeable
+            definition = definition.copy()
+            definition.flags.writeable = False
             ret._definition = definition
             ret._conv_ref = definition._reference
         else:
-- 
2.43.0


From dcc15864498b5225935ce2b1d75a4b58157bfa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 54/66] fix: defining a unit by a plain array failed (in-place
 product)

---
 quantities/unitquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 1d653d4..1329924 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -55,7 +55,7 @@ class UnitQuantity(Quantity):
 
         if definition is not None:
             if not isinstance(definition, Quantity):
-                definition *= dimensionless
+                definition = definition * dimensionless
             # the definition is part of the unit: not shared, nor writeable
             definition = definition.copy()
             definition.flags.writeable = False
-- 
2.43.0


From 385acf38a37d5069a373f3ae90ebeaf11f4aeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 55/66] fix: a unit redefining a registered name of the same
 class was accepted silently

---
 quantities/registry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 6298fb2..9f994da 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -51,7 +51,9 @@ class UnitRegistry:
             try:
                 assert string not in self.__context
             except AssertionError:
-                if val == self.__context[string]:
+                # two units of the same class and name are equal as such,
+                # whatever they stand for
+                if val._reference == self.__context[string]._reference:
                     return
                 raise KeyError(
                     '%s has already been registered for %s'
-- 
2.43.0


From 4258ad5483480b2e45a68e8c6447e42d2c7f5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 56/66] fix: the pond is a gram-force, not a kilogram-force

---
 quantities/units/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/force.py b/quantities/units/force.py
index c903969..7be0d23 100644
--- a/quantities/units/force.py
+++ b/quantities/units/force.py
@@ -28,7 +28,7 @@ dyne = UnitQuantity(
 )
 pond = UnitQuantity(
     'pond',
-    g_0*kg,
+    g_0*gram,
     symbol='p',
     aliases=['ponds']
 )
-- 
2.43.0


From 0c88b341601de8e3099348d9aa945c3a4ff5aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 57/66] fix: the oersted was registered under the name
 'aliases'

---
 quantities/units/electromagnetism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index c22ac87..482cf34 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -264,7 +264,7 @@ Oe = oersted = UnitQuantity(
     'oersted',
     1000/(4*pi)*A/m,
     symbol='Oe',
-    aliases=['aliases']
+    aliases=['oersteds']
 )
 statfarad = statF = stF = UnitQuantity(
     'statfarad',
-- 
2.43.0


From 62249a7f16269c30b6c6396b2597272f812478be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 58/66] fix: the statampere could not be simplified or parsed
 back

It was an UnitCurrent, whose simplified form is in amperes, but it is defined
in mechanical units; its symbol (esu/s) denotes a compound of other units.
---
 quantities/units/electromagnetism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index 482cf34..bf4bdce 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -52,10 +52,10 @@ esu = statcoulomb = statC = franklin = Fr = UnitQuantity(
     symbol='esu',
     aliases=['statcoulombs', 'statC', 'franklin', 'franklins', 'Fr']
 )
-esu_per_second = statampere = UnitCurrent(
+esu_per_second = statampere = UnitQuantity(
     'statampere',
     esu/s,
-    symbol='(esu/s)',
+    symbol='statA',
     aliases=['statamperes']
 )
 
-- 
2.43.0


From a38cda81cf1bee985fe0bb1ae98b209bc1ce1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 59/66] fix: the symbol of the attosecond could not be parsed
 ('as' is a keyword)

---
 quantities/registry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantities/registry.py b/quantities/registry.py
index 9f994da..9e2a9a6 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -80,6 +80,8 @@ class UnitRegistry:
         if label == '': label = 'dimensionless'
         if "%" in label: label = label.replace("%", "percent")
         label = re.sub(r"\bin\b", "inch", label, flags=re.IGNORECASE)
+        # the symbol of the attosecond is a keyword too
+        label = re.sub(r"\bas\b", "attosecond", label)
 
         return self.__registry[label]
 
-- 
2.43.0


From 4dd9d17e2758e317de4dd6645e98d1c10dd72739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 60/66] fix: the symbols of three constants were those of other
 constants

---
 quantities/constants/atomicunits.py | 2 +-
 quantities/constants/deuteron.py    | 2 +-
 quantities/constants/muon.py        | 4 ++--
 quantities/constants/tau.py         | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantities/constants/atomicunits.py b/quantities/constants/atomicunits.py
index 8e53e93..1dcdf75 100644
--- a/quantities/constants/atomicunits.py
+++ b/quantities/constants/atomicunits.py
@@ -118,7 +118,7 @@ atomic_unit_of_magnetic_flux_density = UnitConstant(
 atomic_unit_of_magnetizability = UnitConstant(
     'atomic_unit_of_magnetizability',
     _cd('atomic unit of magnetizability'),
-    symbol='(e**2a_0**2/m_e)',
+    symbol='(e**2*a_0**2/m_e)',
     u_symbol='(e²·a₀²/mₑ)'
 )
 m_e = atomic_unit_of_mass = UnitConstant(
diff --git a/quantities/constants/deuteron.py b/quantities/constants/deuteron.py
index a6846a0..2b0d378 100644
--- a/quantities/constants/deuteron.py
+++ b/quantities/constants/deuteron.py
@@ -54,7 +54,7 @@ deuteron_electron_mass_ratio = UnitConstant(
 deuteron_proton_mass_ratio = UnitConstant(
     'deuteron_proton_mass_ratio',
     _cd('deuteron-proton mass ratio'),
-    symbol='(m_d/m_n)'
+    symbol='(m_d/m_p)'
 )
 deuteron_electron_magnetic_moment_ratio = UnitConstant(
     'deuteron_electron_magnetic_moment_ratio',
diff --git a/quantities/constants/muon.py b/quantities/constants/muon.py
index cf81fae..eecc463 100644
--- a/quantities/constants/muon.py
+++ b/quantities/constants/muon.py
@@ -14,13 +14,13 @@ m_mu = muon_mass = UnitConstant(
 lambda_C_mu = muon_Compton_wavelength = UnitConstant(
     'muon_Compton_wavelength',
     _cd('muon Compton wavelength'),
-    symbol='lambdabar_C_mu',
+    symbol='lambda_C_mu',
     u_symbol='λ_C_μ'
 )
 muon_Compton_wavelength_over_2_pi = UnitConstant(
     'muon_Compton_wavelength_over_2_pi',
     _cd('muon Compton wavelength over 2 pi'),
-    symbol='lambdabar_Cmu',
+    symbol='lambdabar_C_mu',
     u_symbol='ƛ_C_μ'
 )
 g_mu = muon_g_factor = UnitConstant(
diff --git a/quantities/constants/tau.py b/quantities/constants/tau.py
index fdbe59a..281d22b 100644
--- a/quantities/constants/tau.py
+++ b/quantities/constants/tau.py
@@ -20,7 +20,7 @@ lambda_C_tau = tau_Compton_wavelength = UnitConstant(
 tau_Compton_wavelength_over_2_pi = UnitConstant(
     'tau_Compton_wavelength_over_2_pi',
     _cd('tau Compton wavelength over 2 pi'),
-    symbol='lambda_C_tau',
+    symbol='lambdabar_C_tau',
     u_symbol='ƛ_C_τ'
 )
 tau_mass_energy_equivalent = UnitConstant(
-- 
2.43.0


From 9e0378076181bfda6850d2032b4df91b81e91f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 61/66] fix: type stub of the statampere

---
 quantities/units/electromagnetism.pyi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/units/electromagnetism.pyi b/quantities/units/electromagnetism.pyi
index bdc6ddb..f3ba38b 100644
--- a/quantities/units/electromagnetism.pyi
+++ b/quantities/units/electromagnetism.pyi
@@ -24,8 +24,8 @@ statcoulomb: UnitQuantity
 statC: UnitQuantity
 franklin: UnitQuantity
 Fr: UnitQuantity
-esu_per_second: UnitCurrent
-statampere: UnitCurrent
+esu_per_second: UnitQuantity
+statampere: UnitQuantity
 ampere_turn: UnitQuantity
 Gi: UnitQuantity
 gilbert: UnitQuantity
-- 
2.43.0


From 4e86e2fcd81e7368dd8fa8796a01cf0c9817ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:04 +0000
Subject: [PATCH 62/66] fix: unit strings with dots around a one-letter unit
 ('N.m.s') were refused

---
 quantities/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 9e2a9a6..71949b7 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -61,7 +61,7 @@ class UnitRegistry:
                 )
             self.__context[string] = val
 
-    __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
+    __regex = re.compile(r'([A-Za-z])\.(?=[A-Za-z])')
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -74,7 +74,7 @@ class UnitRegistry:
         """Parses a string description of a unit e.g., 'g/cc'"""
 
         label = self.__regex.sub(
-            r"\g<1>*\g<2>", label.replace('^', '**').replace('·', '*'))
+            r"\g<1>*", label.replace('^', '**').replace('·', '*'))
 
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
-- 
2.43.0


From ad0b6db7cea5074d61ca609914750e7c83706077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:13 +0000
Subject: [PATCH 63/66] fix: text constants and the name __builtins__ were
 accepted in unit strings

---
 quantities/registry.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 71949b7..3801ddf 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -30,7 +30,17 @@ class UnitRegistry:
             # This approach to avoiding arbitrary evaluation of code is based on https://stackoverflow.com/a/11952618 
             # by https://stackoverflow.com/users/567292/ecatmur
             tree = ast.parse(string, mode="eval")
-            valid = all(isinstance(node, self.whitelist) for node in ast.walk(tree))
+            valid = all(
+                isinstance(node, self.whitelist) for node in ast.walk(tree)
+            ) and all(
+                type(node.value) in (int, float, complex)
+                for node in ast.walk(tree)
+                if isinstance(node, ast.Constant)
+            ) and all(
+                node.id in self.__context
+                for node in ast.walk(tree)
+                if isinstance(node, ast.Name)
+            )
             if valid:
                 try:
                     item = eval(
-- 
2.43.0


From 43883fcb689802cb6592725eddd54ef7b4e38d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:51 +0000
Subject: [PATCH 64/66] fix: fractions as exponents were displayed as divisions
 ('m**1/2')

---
 quantities/markup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/markup.py b/quantities/markup.py
index f839b45..4983a6f 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -46,6 +46,9 @@ def format_exponent(d):
     string representation of an exponent, without insignificant trailing zeros
     '''
     res = '%s'%d
+    if '/' in res:
+        # m**1/2 would be a division
+        res = '%s'%float(d)
     if '.' in res and 'e' not in res:
         res = res.rstrip('0').rstrip('.')
     return res
-- 
2.43.0


From f59e55355316d24c328695e32da80c9f2ddbb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 65/66] fix: LaTeX of products of compound units split the
 fraction within the parentheses

---
 quantities/markup.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 4983a6f..d077e50 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -122,14 +122,17 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     This routine will not put CompoundUnits into a fractional form.
     '''
     res = format_units(udict)
-    if res.startswith('(') and res.endswith(')'):
-        # Compound Unit
-        compound = True
-    else:
-        # Not a compound unit
-        compound = False
-        # Replace division (num/den) with \frac{num}{den}
-        res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
+    # Compound Unit, or not a compound unit
+    compound = res.startswith('(') and res.endswith(')')
+    # Replace division (num/den) with \frac{num}{den}, but not the divisions
+    # within the parentheses of compound units
+    depth = 0
+    for i, c in enumerate(res):
+        depth += (c == '(') - (c == ')')
+        if c == '/' and depth == 0:
+            compound = False
+            res = r'\frac{%s}{%s}' % (res[:i], res[i+1:])
+            break
     # Replace exponentiation (**exp) with ^{exp}
     res = re.sub(r'\*{2,2}(?P<exp>\d+(?:\.\d+)?(?:e[+-]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
-- 
2.43.0


From cc3b9f664fae768f524821d7e13aab7505848a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:11 +0000
Subject: [PATCH 66/66] fix: astype of a unit ignored the requested dtype

---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 5d0bbd1..b6270cb 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -297,9 +297,9 @@ class Quantity(np.ndarray):
         # might be related to numpy ticket # 826
         if not isinstance(ret, type(self)):
             if self.__array_priority__ >= Quantity.__array_priority__:
-                ret = type(self)(ret, self._dimensionality, dtype=self.dtype)
+                ret = type(self)(ret, self._dimensionality, dtype=ret.dtype)
             else:
-                ret = Quantity(ret, self._dimensionality, dtype=self.dtype)
+                ret = Quantity(ret, self._dimensionality, dtype=ret.dtype)
 
         return ret
 
-- 
2.43.0

