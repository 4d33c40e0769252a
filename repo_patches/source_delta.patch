From 782c32eb8c4fe0c29a228a5803dac2152873f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 01/17] fix: do not lose terms when the expansion of a linear
 combination is interrupted or shared

LinearCombination.expand() emptied its own list of terms while working:
an exception in the middle (Ctrl-C, MemoryError) or a concurrent reader
silently lost terms, and gave wrong standard deviations and derivatives
forever after. The expansion now works on its own list and is published
only once complete.
---
 uncertainties/core.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818615e..946e591 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1534,7 +1534,8 @@ class LinearCombination(object):
         """
         Expand the linear combination.
 
-        The expansion is a collections.defaultdict(float).
+        The expansion is a collections.defaultdict (with no default
+        factory, so that a missing variable raises a KeyError).
 
         This should only be called if the linear combination is not
         yet expanded.
@@ -1547,7 +1548,14 @@ class LinearCombination(object):
         # Final derivatives, constructed progressively:
         derivatives = collections.defaultdict(float)
 
-        while self.linear_combo:  # The list of terms is emptied progressively
+        # The terms left to be expanded are kept in a separate list, so
+        # that self.linear_combo always remains a valid representation
+        # of the linear combination, even if the expansion is
+        # interrupted by an exception or if it is read during the
+        # expansion (by another thread, etc.):
+        terms = [(1., self)]
+
+        while terms:  # The list of terms is emptied progressively
 
             # One of the terms is expanded or, if no expansion is
             # needed, simply added to the existing derivatives.
@@ -1559,21 +1567,29 @@ class LinearCombination(object):
             # remaining terms allows this term to be quickly put in
             # the final result, which limits the number of terms
             # remaining (and whose size can temporarily grow):
-            (main_factor, main_expr) = self.linear_combo.pop()
+            (main_factor, main_expr) = terms.pop()
 
             # print "MAINS", main_factor, main_expr
 
-            if main_expr.expanded():
-                for (var, factor) in main_expr.linear_combo.items():
+            # The representation of main_expr can change at any time
+            # (if another thread expands it): it is obtained only once.
+            main_combo = main_expr.linear_combo
+
+            if isinstance(main_combo, dict):  # Expanded form
+                for (var, factor) in main_combo.items():
                     derivatives[var] += main_factor*factor
 
             else:  # Non-expanded form
-                for (factor, expr) in main_expr.linear_combo:
+                for (factor, expr) in main_combo:
                     # The main_factor is applied to expr:
-                    self.linear_combo.append((main_factor*factor, expr))
+                    terms.append((main_factor*factor, expr))
 
             # print "DERIV", derivatives
 
+        # Attempts to get the contribution of a variable that the
+        # function does not depend on raise a KeyError:
+        derivatives.default_factory = None
+
         self.linear_combo = derivatives
 
     def __getstate__(self):
@@ -1696,9 +1712,6 @@ class AffineScalarFunc(object):
 
         if not self._linear_part.expanded():
             self._linear_part.expand()
-            # Attempts to get the contribution of a variable that the
-            # function does not depend on raise a KeyError:
-            self._linear_part.linear_combo.default_factory = None
 
         return self._linear_part.linear_combo
 
-- 
2.43.0


From f3a929ebdc325adcf740b411f66fa85e24ad198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 02/17] fix: expand each shared sub-expression only once

Reading the uncertainty of a calculation that reuses its intermediate
results (x = x + x, etc.) took a time that was exponential in the number
of operations. Sub-expressions are now sorted, and each one is expanded
a single time.
---
 uncertainties/core.py | 82 ++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 946e591..0cd9f6c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1541,50 +1541,60 @@ class LinearCombination(object):
         yet expanded.
         """
 
-        # The derivatives are built progressively by expanding each
-        # term of the linear combination until there is no linear
-        # combination to be expanded.
+        # self.linear_combo always remains a valid representation of
+        # the linear combination, even if the expansion is interrupted
+        # by an exception or if it is read during the expansion (by
+        # another thread, etc.).
+        #
+        # Similarly, the representation of each sub-expression can
+        # change at any time (if another thread expands it): it is
+        # obtained only once, and kept in the following mapping:
+        linear_combos = {}
+
+        # All the expressions are sorted so that each one comes after
+        # the expressions that it contains (depth-first search, without
+        # recursion because expressions can be deeply nested). Thanks to
+        # this, each expression is expanded only once, even when it
+        # appears many times:
+        sorted_exprs = []
+        to_be_visited = [(self, False)]
+
+        while to_be_visited:
+
+            (expr, sub_exprs_are_sorted) = to_be_visited.pop()
+
+            if sub_exprs_are_sorted:
+                sorted_exprs.append(expr)
+            elif expr not in linear_combos:  # Not yet visited
+                linear_combo = expr.linear_combo
+                linear_combos[expr] = linear_combo
+                to_be_visited.append((expr, True))
+                if not isinstance(linear_combo, dict):
+                    to_be_visited.extend(
+                        (sub_expr, False)
+                        for (_, sub_expr) in reversed(linear_combo))
+
+        # Total factor in front of each (sub-)expression:
+        factors = dict.fromkeys(sorted_exprs, 0.)
+        factors[self] = 1.
 
         # Final derivatives, constructed progressively:
         derivatives = collections.defaultdict(float)
 
-        # The terms left to be expanded are kept in a separate list, so
-        # that self.linear_combo always remains a valid representation
-        # of the linear combination, even if the expansion is
-        # interrupted by an exception or if it is read during the
-        # expansion (by another thread, etc.):
-        terms = [(1., self)]
+        for expr in reversed(sorted_exprs):
 
-        while terms:  # The list of terms is emptied progressively
+            # All the contributions to the factor of expr are known at
+            # this point.
+            main_factor = factors[expr]
+            linear_combo = linear_combos[expr]
 
-            # One of the terms is expanded or, if no expansion is
-            # needed, simply added to the existing derivatives.
-            #
-            # Optimization note: since Python's operations are
-            # left-associative, a long sum of Variables can be built
-            # such that the last term is essentially a Variable (and
-            # not a NestedLinearCombination): popping from the
-            # remaining terms allows this term to be quickly put in
-            # the final result, which limits the number of terms
-            # remaining (and whose size can temporarily grow):
-            (main_factor, main_expr) = terms.pop()
-
-            # print "MAINS", main_factor, main_expr
-
-            # The representation of main_expr can change at any time
-            # (if another thread expands it): it is obtained only once.
-            main_combo = main_expr.linear_combo
-
-            if isinstance(main_combo, dict):  # Expanded form
-                for (var, factor) in main_combo.items():
+            if isinstance(linear_combo, dict):  # Expanded form
+                for (var, factor) in linear_combo.items():
                     derivatives[var] += main_factor*factor
-
             else:  # Non-expanded form
-                for (factor, expr) in main_combo:
-                    # The main_factor is applied to expr:
-                    terms.append((main_factor*factor, expr))
-
-            # print "DERIV", derivatives
+                for (factor, sub_expr) in linear_combo:
+                    # The main_factor is applied to sub_expr:
+                    factors[sub_expr] += main_factor*factor
 
         # Attempts to get the contribution of a variable that the
         # function does not depend on raise a KeyError:
-- 
2.43.0


From f2d0a193202024ceb24c297b04c0d184f2d20f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 03/17] fix: read each standard deviation once when calculating
 error components

If a standard deviation was set to 0 by another thread between the two
reads, a function with an infinite derivative got a NaN uncertainty, which
corresponds neither to the old nor to the new standard deviation.
---
 uncertainties/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 0cd9f6c..ea9ab3a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1828,12 +1828,16 @@ class AffineScalarFunc(object):
             # multiplication by the derivative is performed): an exact
             # variable obviously leads to no uncertainty in the
             # functions that depend on it.
-            if variable._std_dev == 0:
+            #
+            # The standard deviation is read only once because it can be
+            # modified at any time (by another thread, etc.).
+            std_dev = variable._std_dev
+            if std_dev == 0:
                 # !!! Shouldn't the errors always be floats, as a
                 # convention of this module?
                 error_components[variable] = 0
             else:
-                error_components[variable] = abs(derivative*variable._std_dev)
+                error_components[variable] = abs(derivative*std_dev)
 
         return error_components
 
-- 
2.43.0


From 4bf187eadcb07a8066744b52ebdb5ac0233bb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 04/17] fix: reject a standard deviation of -infinity

Only NaN is meant to be exempted from the check on negative values.
---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index ea9ab3a..9a9a633 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2810,7 +2810,7 @@ class Variable(AffineScalarFunc):
         # (Note: if NaN < 0 is False, there is no need to test
         # separately for NaN. But this is not guaranteed, even if it
         # should work on most platforms.)
-        if std_dev < 0 and not isinfinite(std_dev):
+        if std_dev < 0 and not isnan(std_dev):
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From 8ecb9295cacf1ff18b0807e441590aff54f24a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 05/17] fix: give frexp() a valid linear part

The uncertainty of the mantissa could not be calculated (TypeError).
---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fde92fe..b0580cd 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -395,7 +395,7 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([2**-exponent, aff_func._linear_part])),
+                LinearCombination([(2**-exponent, aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From e652f8612a6c8c94fe3cba373d283072275cecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 06/17] fix: accept numbers that depend on no variable in
 ldexp() and frexp()

Elements of the inverse of a matrix that do not depend on any variable
were passed as is to the math module, which raised a TypeError.
---
 uncertainties/umath_core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b0580cd..5f5a694 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -370,8 +370,8 @@ def ldexp(x, i):
         # we do not have to care about the type of the return value of
         # math.ldexp, this way (aff_func.nominal_value might be the
         # value of x coerced to a difference type [int->float, for
-        # instance]):
-        return math.ldexp(x, i)
+        # instance]), except if x is an AffineScalarFunc with no variable:
+        return math.ldexp(uncert_core.nominal_value(x), i)
 many_scalars_to_scalar_funcs.append('ldexp')
 
 @uncert_core.set_doc(math.frexp.__doc__)
@@ -401,8 +401,9 @@ def frexp(x):
             exponent)
     else:
         # This function was not called with an AffineScalarFunc
-        # argument: there is no need to return numbers with uncertainties:
-        return math.frexp(x)
+        # argument (or was called with one that has no variable): there
+        # is no need to return numbers with uncertainties:
+        return math.frexp(uncert_core.nominal_value(x))
 non_std_wrapped_funcs.append('frexp')
 
 ###############################################################################
-- 
2.43.0


From 189d9b2169b351c526dfe135e932bb5814191b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 07/17] fix: always associate derivatives to the correct
 argument of a wrapped function

Derivatives are lazily obtained from an iterable. If two threads first
used a wrapped function at the same time, or if this first use was
interrupted, derivatives could be permanently associated to the wrong
argument (for instance in umath.log() and umath.hypot()).
---
 uncertainties/core.py       | 38 ++++++++++++++++++++++++++-----------
 uncertainties/umath_core.py |  2 +-
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 9a9a633..7a247cc 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -38,6 +38,7 @@ import itertools
 import inspect
 import numbers
 import collections
+import threading
 
 # The following restricts the local function getargspec() to the common
 # features of inspect.getargspec() and inspect.getfullargspec():
@@ -406,27 +407,38 @@ class IndexableIter(object):
         self.iterable = iterable
         self.returned_elements = []
         self.none_converter = none_converter
+        # Elements must be obtained from the iterable by a single thread
+        # at a time, so that they are put at the correct index:
+        self.lock = threading.RLock()
 
     def __getitem__(self, index):
 
         returned_elements = self.returned_elements
 
-        try:
-
-            return returned_elements[index]
-
-        except IndexError:  # Element not yet cached
+        if index >= len(returned_elements):  # Element not yet cached
 
-            for pos in range(len(returned_elements), index+1):
+            with self.lock:
 
-                value = next(self.iterable)
+                try:
+                    # The elements are directly transferred to the list:
+                    # none is lost if an exception (KeyboardInterrupt,
+                    # etc.) happens between the transfer of two elements.
+                    returned_elements.extend(itertools.islice(
+                        self.iterable, max(0, index+1-len(returned_elements))))
+                except BaseException:
+                    # An element might have been lost by the iterable: the
+                    # position of the next ones is unknown, so they cannot
+                    # be used:
+                    self.iterable = itertools.repeat(None)
+                    raise
 
-                if value is None:
-                    value = self.none_converter(pos)
+        value = returned_elements[index]
 
-                returned_elements.append(value)
+        if value is None:
+            value = self.none_converter(index)
+            returned_elements[index] = value
 
-            return returned_elements[index]
+        return value
 
     def __str__(self):
         return '<%s: [%s...]>' % (
@@ -554,6 +566,10 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments in *args:
         itertools.chain(derivatives_args, itertools.repeat(None)))
 
+    # The derivatives are obtained right away when their number is known
+    # (they are otherwise obtained when they are needed):
+    if isinstance(derivatives_args, (list, tuple)) and derivatives_args:
+        derivatives_args_index[len(derivatives_args)-1]
 
     # Derivatives for keyword arguments (includes var-keyword
     # parameters **kwargs, but also var-or-keyword parameters, and
diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 5f5a694..1c9cba5 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -258,7 +258,7 @@ for name in dir(math):
         # that cannot be calculated indicates a non-defined derivative
         # (the derivatives in fixed_derivatives must be written this way):
         wrapped_func = uncert_core.wrap(
-            func, map(uncert_core.nan_if_exception, derivatives))
+            func, list(map(uncert_core.nan_if_exception, derivatives)))
 
     # !! The same effect could be achieved with globals()[...] = ...
     setattr(this_module, name, wraps(wrapped_func, func))
-- 
2.43.0


From eeaeee0586b91c8387a12b27ecb4f063edf79985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 08/17] fix: allow the copy and pickling of long calculations

The deep copy or pickling of a long sum raised a RecursionError, unless
its standard deviation had been calculated before.
---
 uncertainties/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7a247cc..2118975 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1619,6 +1619,10 @@ class LinearCombination(object):
         self.linear_combo = derivatives
 
     def __getstate__(self):
+        # The expanded form is used because copying or pickling a deeply
+        # nested expression could exceed Python's maximum recursion depth:
+        if not self.expanded():
+            self.expand()
         # Not false, otherwise __setstate__() will not be called:
         return (self.linear_combo,)
 
-- 
2.43.0


From 4a5297f5b7682801ae764ad17c4041e5e82a6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 09/17] fix: do not add stars again to already updated uarray()
 and umatrix() calls

Running the code updater a second time, for instance after it was
interrupted, transformed uarray(*args) into uarray(**args).
---
 uncertainties/lib1to2/fixes/fix_uarray_umatrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
index a47284a..0650416 100644
--- a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
+++ b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
@@ -63,8 +63,10 @@ class FixUarrayUmatrix(BaseFix):
 
             args_node = results['args']
 
-            # We must make sure that there is a single argument:
-            if args_node.type == syms.arglist:
+            # We must make sure that there is a single argument, and that
+            # it is a plain one (and not *args, which is the result of a
+            # previous update, or keyword=value, etc.):
+            if args_node.type in (syms.arglist, syms.argument):
                 return  # Nothing modified
 
             # Single argument (in position 1):
-- 
2.43.0


From 08bb904747730e0882d11568d88178501c6650d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 10/17] fix: accept integers as the left operand of the modulo
 operator

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 2118975..faa4b4d 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2568,7 +2568,7 @@ def get_ops_with_reflection():
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
+        'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y**2")
-- 
2.43.0


From 11cd4387451edd9eca7e62abfdfeb5e855615766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 11/17] fix: keep the supplied derivatives after an
 interruption that lost none

---
 uncertainties/core.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index faa4b4d..6b13c63 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -419,17 +419,20 @@ class IndexableIter(object):
 
             with self.lock:
 
+                missing_elements = itertools.islice(
+                    self.iterable, max(0, index+1-len(returned_elements)))
+
                 try:
                     # The elements are directly transferred to the list:
                     # none is lost if an exception (KeyboardInterrupt,
                     # etc.) happens between the transfer of two elements.
-                    returned_elements.extend(itertools.islice(
-                        self.iterable, max(0, index+1-len(returned_elements))))
+                    returned_elements.extend(missing_elements)
                 except BaseException:
-                    # An element might have been lost by the iterable: the
-                    # position of the next ones is unknown, so they cannot
-                    # be used:
-                    self.iterable = itertools.repeat(None)
+                    if index >= len(returned_elements):
+                        # An element might have been lost by the
+                        # iterable: the position of the next ones is
+                        # unknown, so they cannot be used:
+                        self.iterable = itertools.repeat(None)
                     raise
 
         value = returned_elements[index]
-- 
2.43.0


From 1386fe470b7c22e07effb6e2388d10e8e28d330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 12/17] fix: do not hide unrelated problems when a function is
 wrapped

---
 uncertainties/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 6b13c63..4166e3a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -598,12 +598,16 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
 
     try:
         argspec = getargspec(f)
-    except TypeError:
+    except TypeError as exc:
+        # Python 3 converts any problem (including MemoryError, etc.)
+        # into a TypeError: unrelated problems must not be hidden.
+        cause = getattr(exc, '__cause__', None)
+        if cause is not None and not isinstance(cause, (TypeError, ValueError)):
+            raise cause
         # Some functions do not provide meta-data about their
         # arguments (see PEP 362). One cannot use keyword arguments
         # for positional-or-keyword parameters with them: nothing has
         # to be done:
-        pass
     else:
         # With Python 3, there is no need to handle keyword-only
         # arguments (and therefore to use inspect.getfullargspec())
-- 
2.43.0


From 92b8b65ebcccc4558e47c88238eeabff1e95d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 13/17] fix: read each uncertainty only once in covariance
 matrices

---
 uncertainties/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 4166e3a..e4a905c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2953,16 +2953,25 @@ def covariance_matrix(nums_with_uncert):
     """
     # See PSI.411 in EOL's notes.
 
+    # The uncertainties are only read once: they must be the same in all
+    # the coefficients of the matrix even if they are being modified by
+    # another thread:
+    variances = {}
+
     covariance_matrix = []
     for (i1, expr1) in enumerate(nums_with_uncert, 1):
         derivatives1 = expr1.derivatives  # Optimization
         vars1 = set(derivatives1)  # !! Python 2.7+: viewkeys() would work
         coefs_expr1 = []
 
+        for var in vars1:
+            if var not in variances:
+                variances[var] = var._std_dev**2
+
         for expr2 in nums_with_uncert[:i1]:
             derivatives2 = expr2.derivatives  # Optimization
             coefs_expr1.append(sum(
-                ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
+                (derivatives1[var]*derivatives2[var]*variances[var]
                 # var is a variable common to both numbers with
                 # uncertainties:
                 for var in vars1.intersection(derivatives2)),
-- 
2.43.0


From 63f2d8532348797c5d30a9a99d51fee3efe84bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 14/17] fix: derivatives from iterators used during their
 iteration by a signal handler

---
 uncertainties/core.py | 45 ++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index e4a905c..f28311c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -410,6 +410,7 @@ class IndexableIter(object):
         # Elements must be obtained from the iterable by a single thread
         # at a time, so that they are put at the correct index:
         self.lock = threading.RLock()
+        self.iterating = False
 
     def __getitem__(self, index):
 
@@ -419,21 +420,35 @@ class IndexableIter(object):
 
             with self.lock:
 
-                missing_elements = itertools.islice(
-                    self.iterable, max(0, index+1-len(returned_elements)))
-
-                try:
-                    # The elements are directly transferred to the list:
-                    # none is lost if an exception (KeyboardInterrupt,
-                    # etc.) happens between the transfer of two elements.
-                    returned_elements.extend(missing_elements)
-                except BaseException:
-                    if index >= len(returned_elements):
-                        # An element might have been lost by the
-                        # iterable: the position of the next ones is
-                        # unknown, so they cannot be used:
-                        self.iterable = itertools.repeat(None)
-                    raise
+                # The iterable cannot be used by code that interrupts an
+                # iteration of the same thread (signal handler, finalizer,
+                # etc.):
+                if not self.iterating:
+
+                    missing_elements = itertools.islice(
+                        self.iterable, max(0, index+1-len(returned_elements)))
+
+                    try:
+                        self.iterating = True
+                        # The elements are directly transferred to the list:
+                        # none is lost if an exception (KeyboardInterrupt,
+                        # etc.) happens between the transfer of two elements.
+                        returned_elements.extend(missing_elements)
+                    except BaseException:
+                        # An element might have been lost by the iterable:
+                        # the position of the next ones is unknown, so they
+                        # cannot be used...
+                        iterable = self.iterable
+                        self.iterable = ()
+                        if index < len(returned_elements):
+                            # ... but no element was lost
+                            self.iterable = iterable
+                        raise
+                    finally:
+                        self.iterating = False
+
+            if index >= len(returned_elements):  # Unavailable element
+                return self.none_converter(index)
 
         value = returned_elements[index]
 
-- 
2.43.0


From 0850b1e7d5eee9b7472580e4783f94f692bb9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 15/17] fix: covariances and matrix inverses did not depend
 only on their arguments

The order of the terms of covariances, and the order of the derivatives
of the elements of matrix inverses and pseudo-inverses, were those of
sets of variables, which depend on memory addresses: the same program
could give different results (in the last digits, and in the order of
the error components) when run twice, or when unrelated numbers exist.
---
 uncertainties/core.py        |  9 +++++----
 uncertainties/unumpy/core.py | 19 ++++++++++---------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f28311c..15abe80 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2976,10 +2976,9 @@ def covariance_matrix(nums_with_uncert):
     covariance_matrix = []
     for (i1, expr1) in enumerate(nums_with_uncert, 1):
         derivatives1 = expr1.derivatives  # Optimization
-        vars1 = set(derivatives1)  # !! Python 2.7+: viewkeys() would work
         coefs_expr1 = []
 
-        for var in vars1:
+        for var in derivatives1:
             if var not in variances:
                 variances[var] = var._std_dev**2
 
@@ -2988,8 +2987,10 @@ def covariance_matrix(nums_with_uncert):
             coefs_expr1.append(sum(
                 (derivatives1[var]*derivatives2[var]*variances[var]
                 # var is a variable common to both numbers with
-                # uncertainties:
-                for var in vars1.intersection(derivatives2)),
+                # uncertainties (the order of the terms does not
+                # depend on the memory addresses of the variables,
+                # so that the result is reproducible):
+                for var in derivatives1 if var in derivatives2),
                 # The result is always a float (sum() with no terms
                 # returns an integer):
                 0.))
diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 3507db4..480bb6d 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -169,17 +169,17 @@ def wrap_array_func(func):
         # The algorithm consists in numerically calculating the derivatives
         # of func:
 
-        # Variables on which the array depends are collected:
-        variables = set()
+        # Variables on which the array depends are collected (in an
+        # order that does not depend on memory addresses, so that the
+        # results are reproducible):
+        variables = {}
         for element in arr.flat:
             # floats, etc. might be present
             if isinstance(element, uncert_core.AffineScalarFunc):
                 # !!!! The following forces an evaluation of the
                 # derivatives!? Isn't this very slow, when
                 # working with a large number of arrays?
-                #
-                # !! set() is only needed for Python 2 compatibility:
-                variables |= set(element.derivatives.keys())
+                variables.update(element.derivatives)
 
         # If the matrix has no variables, then the function value can be
         # directly returned:
@@ -383,13 +383,14 @@ def func_with_deriv_to_uncert_func(func_with_derivatives):
         # So that .flat works even if array_like is a list:
         array_version = numpy.asanyarray(array_like)
 
-        # Variables on which the array depends are collected:
-        variables = set()
+        # Variables on which the array depends are collected (in an
+        # order that does not depend on memory addresses, so that the
+        # results are reproducible):
+        variables = {}
         for element in array_version.flat:
             # floats, etc. might be present
             if isinstance(element, uncert_core.AffineScalarFunc):
-                # !!! set() is only needed for Python 2 compatibility:
-                variables |= set(element.derivatives.keys())
+                variables.update(element.derivatives)
 
         array_nominal = nominal_values(array_version)
         # Function value, then derivatives at array_nominal (the
-- 
2.43.0


From 92655072b741ddef3622d85883a26ca10be063b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 16/17] fix: unumpy could not be imported again after an
 interrupted import

---
 uncertainties/unumpy/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/uncertainties/unumpy/__init__.py b/uncertainties/unumpy/__init__.py
index f8fe976..deebb48 100644
--- a/uncertainties/unumpy/__init__.py
+++ b/uncertainties/unumpy/__init__.py
@@ -71,10 +71,14 @@ author."""
 # Local modules:
 
 from .core import *
+# The name "core" cannot be used here: it is not defined if this module
+# is imported again after an import that was interrupted after the
+# import of .core.
+from .core import __all__
 from . import ulinalg  # Local sub-module
 
-# __all__ is set so that pydoc shows all important functions:
-__all__ = core.__all__
+# __all__ is set so that pydoc shows all important functions.
 # "import numpy" makes numpy.linalg available.  This behavior is
-# copied here, for maximum compatibility:
-__all__.append('ulinalg')
+# copied here, for maximum compatibility (core.__all__ is not modified:
+# ulinalg is not defined in .core):
+__all__ = __all__+['ulinalg']
-- 
2.43.0


From d7b3454a589527383c6ee4b18602894b3d993971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 17/17] fix: wrapped functions could block a process forked
 while another thread called them

---
 uncertainties/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 15abe80..e84fb28 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -22,6 +22,7 @@ from builtins import range
 from past.builtins import basestring
 from builtins import object
 import sys
+import os
 import re
 import math
 from math import sqrt, log, isnan, isinf  # Optimization: no attribute look-up
@@ -408,8 +409,10 @@ class IndexableIter(object):
         self.returned_elements = []
         self.none_converter = none_converter
         # Elements must be obtained from the iterable by a single thread
-        # at a time, so that they are put at the correct index:
-        self.lock = threading.RLock()
+        # at a time, so that they are put at the correct index.  There is
+        # one lock per process: in a forked process (multiprocessing,
+        # etc.), a lock held by a thread of its parent is never released.
+        self.locks = {}
         self.iterating = False
 
     def __getitem__(self, index):
@@ -418,7 +421,8 @@ class IndexableIter(object):
 
         if index >= len(returned_elements):  # Element not yet cached
 
-            with self.lock:
+            # (setdefault() is atomic: all threads get the same lock.)
+            with self.locks.setdefault(os.getpid(), threading.RLock()):
 
                 # The iterable cannot be used by code that interrupts an
                 # iteration of the same thread (signal handler, finalizer,
-- 
2.43.0

