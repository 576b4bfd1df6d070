From acb7f87a28aa991c8a05d3acb4c804859e76612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 01/24] fix: compute the size of a collection from its choice
 index exactly

---
 .../src/hypothesis/internal/conjecture/choice.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index 9cdd278..42ed6e4 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -215,15 +215,13 @@ def _index_to_size(index: int, alphabet_size: int) -> int:
     total = index * (alphabet_size - 1) + 1
     size = math.log(total, alphabet_size)
 
-    # if this computation is close enough that it could have been affected by
-    # floating point errors, use a much slower integer-only logarithm instead,
-    # which is guaranteed to be precise.
-    if 0 < math.ceil(size) - size < 1e-7:
-        s = 0
-        while total >= alphabet_size:
-            total //= alphabet_size
-            s += 1
-        return s
+    # if this computation is close enough to an integer that it could have been
+    # affected by floating point errors (in either direction: for example, the
+    # logarithm of 2**48 + 1 and of 2**48 - 1 may both be exactly 48.0), decide
+    # between the two candidates precisely.
+    nearest = round(size)
+    if abs(nearest - size) < 1e-7:
+        return nearest if alphabet_size**nearest <= total else nearest - 1
     return math.floor(size)
 
 
-- 
2.43.0


From efddca50bbcfd347f15a03f99022f9c804f7de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 02/24] fix: index booleans consistently with choice_permitted
 for tiny probabilities

With 0 < p <= 2**-64 both booleans are permitted (and can be drawn), but
choice_to_index mapped both to 0 and compute_max_children counted one.
---
 .../src/hypothesis/internal/conjecture/choice.py            | 6 +++---
 .../src/hypothesis/internal/conjecture/datatree.py          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index 42ed6e4..25c13a4 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -399,7 +399,7 @@ def choice_to_index(choice: ChoiceT, constraints: ChoiceConstraintsT) -> int:
         constraints = cast(BooleanConstraints, constraints)
         # Ordered by [False, True].
         p = constraints["p"]
-        if not (2 ** (-64) < p < (1 - 2 ** (-64))):
+        if not (0 < p < 1):
             # only one option is possible, so whatever it is is first.
             return 0
         return int(choice)
@@ -478,9 +478,9 @@ def choice_from_index(
         # Ordered by [False, True].
         p = constraints["p"]
         only = None
-        if p <= 2 ** (-64):
+        if p <= 0:
             only = False
-        elif p >= (1 - 2 ** (-64)):
+        elif p >= 1:
             only = True
 
         assert index in {0, 1}
diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/datatree.py b/hypothesis-python/src/hypothesis/internal/conjecture/datatree.py
index 1621d7c..24c8653 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/datatree.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/datatree.py
@@ -209,8 +209,8 @@ def compute_max_children(
     elif choice_type == "boolean":
         constraints = cast(BooleanConstraints, constraints)
         p = constraints["p"]
-        # probabilities of 0 or 1 (or effectively 0 or 1) only have one choice.
-        if p <= 2 ** (-64) or p >= (1 - 2 ** (-64)):
+        # probabilities of 0 or 1 only have one choice.
+        if p <= 0 or p >= 1:
             return 1
         return 2
     elif choice_type == "bytes":
-- 
2.43.0


From 93bec77a1c96700f66c79874ca3910a37116f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 03/24] fix: LazySequenceCopy.pop returns an assigned None

---
 .../src/hypothesis/internal/conjecture/junkdrawer.py       | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
index 800c2f2..070a470 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
@@ -204,10 +204,9 @@ class LazySequenceCopy(Generic[T]):
             raise IndexError("Cannot pop from empty list")
         i = self.__underlying_index(i)
 
-        v = None
-        if self.__mask is not None:
-            v = self.__mask.pop(i, None)
-        if v is None:
+        if self.__mask is not None and i in self.__mask:
+            v = self.__mask.pop(i)
+        else:
             v = self.__values[i]
 
         if self.__popped_indices is None:
-- 
2.43.0


From 9056a8bdf398a7b9feed63e32f2519d53db011fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 04/24] fix: compare IntLists by their contents, whatever their
 storage

---
 .../src/hypothesis/internal/conjecture/junkdrawer.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
index 070a470..7bbf3c9 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
@@ -130,14 +130,15 @@ class IntList(Sequence[int]):
             return True
         if not isinstance(other, IntList):
             return NotImplemented
-        return self.__underlying == other.__underlying
+        # an array never equals a list, even if both contain the same integers.
+        return list(self.__underlying) == list(other.__underlying)
 
     def __ne__(self, other: object) -> bool:
         if self is other:
             return False
         if not isinstance(other, IntList):
             return NotImplemented
-        return self.__underlying != other.__underlying
+        return list(self.__underlying) != list(other.__underlying)
 
     def append(self, n: int) -> None:
         i = len(self)
-- 
2.43.0


From c1896b7438b3948ae351db33def4874af1bb0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 05/24] fix: IntList.insert accepts integers wider than the
 current storage

---
 .../src/hypothesis/internal/conjecture/junkdrawer.py      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
index 7bbf3c9..aeba1fa 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
@@ -120,7 +120,13 @@ class IntList(Sequence[int]):
         del self.__underlying[i]
 
     def insert(self, i: int, v: int) -> None:
-        self.__underlying.insert(i, v)
+        while True:
+            try:
+                self.__underlying.insert(i, v)
+                return
+            except OverflowError:
+                assert v > 0
+                self.__upgrade()
 
     def __iter__(self) -> Iterator[int]:
         return iter(self.__underlying)
-- 
2.43.0


From 3d40b8787028c89f01a5ca8588e38be61da283dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 06/24] fix: floats() rejects bounds which only admit
 subnormals if those are not allowed

---
 .../src/hypothesis/strategies/_internal/numbers.py       | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 59bf66e..096d4bf 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -479,6 +479,15 @@ def floats(
                 f"excludes values above float{width}'s "
                 f"smallest negative normal {-smallest_normal}"
             )
+    elif min_value is not None and max_value is not None:
+        if (0 < min_value and max_value < smallest_normal) or (
+            -smallest_normal < min_value and max_value < 0
+        ):
+            raise InvalidArgument(
+                f"There are no normal {width}-bit floating-point values between "
+                f"min_value={min_arg!r} and max_value={max_arg!r}, but "
+                f"{allow_subnormal=}"
+            )
 
     if min_value is None:
         min_value = float("-inf")
-- 
2.43.0


From e2d04b0512977fbed036a3d7779c76aad027bf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 07/24] fix: filtering small collections for non-emptiness

A list strategy with max_size=1 kept an average size below its new minimum
size, and binary(max_size=0) tripped an assertion.
---
 .../src/hypothesis/strategies/_internal/collections.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index bcdbe7f..8b5f454 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -214,11 +214,13 @@ class ListStrategy(SearchStrategy[list[Ex]]):
 
     def filter(self, condition: Callable[[list[Ex]], Any]) -> SearchStrategy[list[Ex]]:
         if condition in self._nonempty_filters or is_identity_function(condition):
-            assert self.max_size >= 1, "Always-empty is special cased in st.lists()"
             if self.min_size >= 1:
                 return self
+            if self.max_size < 1:  # e.g. st.binary(max_size=0), but not st.lists()
+                return SearchStrategy.filter(self, condition)
             new = copy.copy(self)
             new.min_size = 1
+            new.average_size = min(6, 0.5 * (1 + new.max_size))
             return new
 
         constraints, pred = get_integer_predicate_bounds(condition)
-- 
2.43.0


From 2eeeeb096fc2fe0f5d4b160153eb63dd596a22b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 08/24] fix: rewrite numeric filters to exactly the values that
 satisfy them

integers(): integral float constants made an invalid strategy.
floats(): constants which are not exactly representable were rounded in the
wrong direction, comparisons with infinities let NaN (or an infinity) through,
signed zeros were mixed up, and integers beyond the float range overflowed.
---
 .../src/hypothesis/internal/filtering.py      | 57 +++++++++++++------
 .../strategies/_internal/numbers.py           | 17 ++++--
 2 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index f56e9b8..69167f2 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -230,7 +230,7 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
         if (
             (isinstance(arg, Decimal) and Decimal.is_snan(arg))
             or not isinstance(arg, (int, float, Fraction, Decimal))
-            or math.isnan(arg)
+            or arg != arg  # NaN; and unlike math.isnan() fine with huge integers
         ):
             return unchanged
         options = {
@@ -291,8 +291,10 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["min_value"] != int(constraints["min_value"]):
             constraints["min_value"] = ceil(constraints["min_value"])
-        elif constraints.get("exclude_min", False):
-            constraints["min_value"] = int(constraints["min_value"]) + 1
+        else:
+            constraints["min_value"] = int(constraints["min_value"])
+            if constraints.get("exclude_min", False):
+                constraints["min_value"] += 1
 
     if "max_value" in constraints:
         if constraints["max_value"] == math.inf:
@@ -301,34 +303,55 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
         elif constraints["max_value"] != int(constraints["max_value"]):
             constraints["max_value"] = floor(constraints["max_value"])
-        elif constraints.get("exclude_max", False):
-            constraints["max_value"] = int(constraints["max_value"]) - 1
+        else:
+            constraints["max_value"] = int(constraints["max_value"])
+            if constraints.get("exclude_max", False):
+                constraints["max_value"] -= 1
 
     kw_categories = {"min_value", "max_value", "len"}
     constraints = {k: v for k, v in constraints.items() if k in kw_categories}
     return ConstructivePredicate(constraints, predicate)
 
 
+def _to_float(x: Any) -> float:
+    try:
+        return float(x)
+    except OverflowError:
+        return math.inf if x > 0 else -math.inf
+
+
 def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     constraints, predicate = get_numeric_predicate_bounds(predicate)
 
+    # Each bound becomes the outermost float that satisfies the predicate.  Note that
+    # 0.0 == -0.0, so that a bound of either zero includes or excludes both of them.
     if "min_value" in constraints:
         min_value = constraints["min_value"]
-        constraints["min_value"] = float(constraints["min_value"])
-        if min_value < constraints["min_value"] or (
-            min_value == constraints["min_value"]
-            and constraints.get("exclude_min", False)
-        ):
-            constraints["min_value"] = next_up(constraints["min_value"])
+        exclude_min = constraints.get("exclude_min", False)
+        if exclude_min and min_value == math.inf:
+            return ConstructivePredicate(
+                {"min_value": math.inf, "max_value": -math.inf}, None
+            )
+        bound = _to_float(min_value)
+        if bound == 0:
+            bound = 0.0 if exclude_min else -0.0
+        if bound < min_value or (bound == min_value and exclude_min):
+            bound = next_up(bound)
+        constraints["min_value"] = bound
 
     if "max_value" in constraints:
         max_value = constraints["max_value"]
-        constraints["max_value"] = float(constraints["max_value"])
-        if max_value > constraints["max_value"] or (
-            max_value == constraints["max_value"]
-            and constraints.get("exclude_max", False)
-        ):
-            constraints["max_value"] = next_down(constraints["max_value"])
+        exclude_max = constraints.get("exclude_max", False)
+        if exclude_max and max_value == -math.inf:
+            return ConstructivePredicate(
+                {"min_value": math.inf, "max_value": -math.inf}, None
+            )
+        bound = _to_float(max_value)
+        if bound == 0:
+            bound = -0.0 if exclude_max else 0.0
+        if bound > max_value or (bound == max_value and exclude_max):
+            bound = next_down(bound)
+        constraints["max_value"] = bound
 
     constraints = {
         k: v for k, v in constraints.items() if k in {"min_value", "max_value"}
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 096d4bf..6ef5d1d 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -191,9 +191,13 @@ class FloatStrategy(SearchStrategy[float]):
     def filter(self, condition):
         # Handle a few specific weird cases.
         if condition is math.isfinite:
+            min_bound = max(self.min_value, next_up(float("-inf")))
+            max_bound = min(self.max_value, next_down(float("inf")))
+            if min_bound > max_bound:
+                return nothing()
             return FloatStrategy(
-                min_value=max(self.min_value, next_up(float("-inf"))),
-                max_value=min(self.max_value, next_down(float("inf"))),
+                min_value=min_bound,
+                max_value=max_bound,
                 allow_nan=False,
                 smallest_nonzero_magnitude=self.smallest_nonzero_magnitude,
             )
@@ -211,10 +215,11 @@ class FloatStrategy(SearchStrategy[float]):
             return NanStrategy()
 
         constraints, pred = get_float_predicate_bounds(condition)
-        if not constraints:
+        if pred is not None and not constraints:
             return super().filter(pred)
-        min_bound = max(constraints.get("min_value", -math.inf), self.min_value)
-        max_bound = min(constraints.get("max_value", math.inf), self.max_value)
+        # If these are equal we keep our own bound, for the sake of signed zeros.
+        min_bound = max(self.min_value, constraints.get("min_value", -math.inf))
+        max_bound = min(self.max_value, constraints.get("max_value", math.inf))
 
         # Adjustments for allow_subnormal=False, if any need to be made
         if -self.smallest_nonzero_magnitude < min_bound < 0:
@@ -231,7 +236,7 @@ class FloatStrategy(SearchStrategy[float]):
         if (
             min_bound > self.min_value
             or self.max_value > max_bound
-            or (self.allow_nan and (-math.inf < min_bound or max_bound < math.inf))
+            or self.allow_nan  # which no comparison with a number is true for
         ):
             self = type(self)(
                 min_value=min_bound,
-- 
2.43.0


From b9c5b875811296b3561241de06661db3f85c34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 09/24] fix: reject unique collections of sampled elements when
 too few are distinct

---
 .../src/hypothesis/strategies/_internal/collections.py       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index 8b5f454..72bd53e 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -336,6 +336,11 @@ class UniqueSampledListStrategy(UniqueListStrategy):
                 should_draw.reject(
                     "UniqueSampledListStrategy filter not satisfied or value already seen"
                 )
+        if len(result) < self.min_size:
+            # We ran out of elements, because some were equal or filtered out.
+            data.mark_invalid(
+                "UniqueSampledListStrategy has too few distinct elements"
+            )
         assert self.max_size >= len(result) >= self.min_size
         return result
 
-- 
2.43.0


From e0c1d2b885ca3fbed1cc0802e36ebbfee87e94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 10/24] fix: shared() strategies with equal falsy keys share
 their value

---
 hypothesis-python/src/hypothesis/strategies/_internal/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
index 285dbb6..ba25db5 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
@@ -34,7 +34,7 @@ class SharedStrategy(SearchStrategy[Ex]):
     # Ideally would be -> Ex, but key collisions with different-typed values are
     # possible. See https://github.com/HypothesisWorks/hypothesis/issues/4301.
     def do_draw(self, data: ConjectureData) -> Any:
-        key = self.key or self
+        key = self if self.key is None else self.key
         if key not in data._shared_strategy_draws:
             data._shared_strategy_draws[key] = data.draw(self.base)
         return data._shared_strategy_draws[key]
-- 
2.43.0


From 9e07e83946347305fcb208e2123ba1448c5cfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 11/24] fix: decimals() rounds neither its bounds nor its
 values past the bounds

---
 .../src/hypothesis/strategies/_internal/core.py      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 8e35eba..b3b3c31 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1718,9 +1718,9 @@ def decimals(
         factor = Decimal(10) ** -places
         min_num, max_num = None, None
         if min_value is not None:
-            min_num = ceil(ctx(min_value).divide(min_value, factor))
+            min_num = ceil(Fraction(min_value) * 10**places)
         if max_value is not None:
-            max_num = floor(ctx(max_value).divide(max_value, factor))
+            max_num = floor(Fraction(max_value) * 10**places)
         if min_num is not None and max_num is not None and min_num > max_num:
             raise InvalidArgument(
                 f"There are no decimals with {places} places between "
@@ -1734,9 +1734,15 @@ def decimals(
                 ceil(math.log10(abs(val.numerator) or 1) + math.log10(val.denominator))
                 + 1
             )
-            return Context(prec=precision or 1).divide(
+            result = Context(prec=precision or 1).divide(
                 Decimal(val.numerator), val.denominator
             )
+            # Rounding to this precision must not take us out of bounds.
+            if min_value is not None and result < min_value:
+                return min_value
+            if max_value is not None and result > max_value:
+                return max_value
+            return result
 
         strat = fractions(min_value, max_value).map(fraction_to_decimal)
     # Compose with sampled_from for infinities and NaNs as appropriate
-- 
2.43.0


From 5ac4aaab173e1b48092691b31d5b758fbb50a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 12/24] fix: complex_numbers() with a narrow width stays within
 max_magnitude

---
 .../hypothesis/strategies/_internal/core.py   | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index b3b3c31..7e076d5 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -86,7 +86,7 @@ from hypothesis.internal.conjecture.utils import (
     identity,
 )
 from hypothesis.internal.entropy import get_seeder_and_restorer
-from hypothesis.internal.floats import float_of
+from hypothesis.internal.floats import float_of, next_down
 from hypothesis.internal.reflection import (
     define_function_signature,
     get_pretty_function_description,
@@ -2057,12 +2057,19 @@ def complex_numbers(
         # imaginary parts.
         return builds(complex, floats(**allow_kw), floats(**allow_kw))  # type: ignore
 
+    def round_down(x):
+        # float_of() rounds to nearest, which might exceed max_magnitude.
+        try:
+            result = float_of(x, component_width)
+        except OverflowError:
+            result = math.inf
+        return next_down(result, component_width) if result > x else result
+
     @composite
     def constrained_complex(draw):
         # We downcast drawn floats to the desired (component) width so we
-        # guarantee the resulting complex values are representable. Note
-        # truncating the mantissa bits with float_of() cannot increase the
-        # magnitude of a float, so we are guaranteed to stay within the allowed
+        # guarantee the resulting complex values are representable, rounding
+        # upper bounds down so that we are guaranteed to stay within the allowed
         # range. See https://github.com/HypothesisWorks/hypothesis/issues/3573
 
         # Draw the imaginary part, and determine the maximum real part given
@@ -2073,17 +2080,19 @@ def complex_numbers(
         else:
             zi = draw(
                 floats(
-                    -float_of(max_magnitude, component_width),
-                    float_of(max_magnitude, component_width),
+                    -round_down(max_magnitude),
+                    round_down(max_magnitude),
                     **allow_kw,
                 )
             )
-            rmax = float_of(cathetus(max_magnitude, zi), component_width)
+            rmax = round_down(cathetus(max_magnitude, zi))
         # Draw the real part from the allowed range given the imaginary part
         if min_magnitude == 0 or math.fabs(zi) >= min_magnitude:
             zr = draw(floats(None if rmax is None else -rmax, rmax, **allow_kw))
         else:
             rmin = float_of(cathetus(min_magnitude, zi), component_width)
+            if rmax is not None:
+                rmin = min(rmin, rmax)
             zr = draw(floats(rmin, rmax, **allow_kw))
         # Order of conditions carefully tuned so that for a given pair of
         # magnitude arguments, we always either draw or do not draw the bool
-- 
2.43.0


From e9111023ebf8bd770494155c7b3696993c54c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 13/24] fix: characters() accepts a codec whose characters are
 all below min_codepoint

---
 hypothesis-python/src/hypothesis/internal/charmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/charmap.py b/hypothesis-python/src/hypothesis/internal/charmap.py
index bf6bb59..c460e68 100644
--- a/hypothesis-python/src/hypothesis/internal/charmap.py
+++ b/hypothesis-python/src/hypothesis/internal/charmap.py
@@ -332,8 +332,9 @@ def query(
     base = _query_for_key(catkey)
     result = []
     for u, v in base:
-        if v >= min_codepoint and u <= max_codepoint:
-            result.append((max(u, min_codepoint), min(v, max_codepoint)))
+        lo, hi = max(u, min_codepoint), min(v, max_codepoint)
+        if lo <= hi:
+            result.append((lo, hi))
     result = (IntervalSet(result) | character_intervals) - exclude_intervals
     if context is None or not context.data.provider.avoid_realization:
         limited_category_index_cache[qkey] = result
-- 
2.43.0


From 6b3c28c04e278bbc80f0fafae1c4b22f19f643cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 14/24] fix: slices() does not turn a stop equal to the size
 into -0

---
 hypothesis-python/src/hypothesis/strategies/_internal/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 7e076d5..39ae204 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -2617,7 +2617,8 @@ def slices(draw: Any, size: int) -> slice:
 
     if draw(booleans()) and start is not None:
         start -= size
-    if draw(booleans()) and stop is not None:
+    # there is no negative spelling of stop == size, as -0 means the other end
+    if draw(booleans()) and stop is not None and stop != size:
         stop -= size
     if (not draw(booleans())) and step == 1:
         step = None
-- 
2.43.0


From 2492ee7072a1d75a84d0911a66eb4f838fb5cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 15/24] fix: randoms() does not reuse results of calls with
 other arguments

---
 .../src/hypothesis/strategies/_internal/random.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index e28b259..bfaf2c5 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -216,8 +216,10 @@ class ArtificialRandom(HypothesisRandom):
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
             key = (method, len(kwargs["x"]))
+        elif method == "sample":
+            key = (method, len(kwargs["population"]), kwargs.get("k"))
         else:
-            key = (method, *sorted(kwargs))
+            key = (method, *sorted(kwargs.items()))
 
         try:
             result, self.__state = self.__state.next_states[key]
-- 
2.43.0


From 052a0520122a2834a962076c1a53be3784fed238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 16/24] fix: randoms().expovariate() with a negative rate is
 not positive

---
 hypothesis-python/src/hypothesis/strategies/_internal/random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index bfaf2c5..7dc4ca2 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -320,6 +320,8 @@ class ArtificialRandom(HypothesisRandom):
                 result = self.__data.draw(floats(mode, high))
             else:
                 result = self.__data.draw(floats(low, mode))
+        elif method == "expovariate" and kwargs["lambd"] < 0:
+            result = self.__data.draw(floats(max_value=0.0))
         elif method in ("paretovariate", "expovariate", "lognormvariate"):
             result = self.__data.draw(floats(min_value=0.0))
         elif method == "shuffle":
-- 
2.43.0


From 0310998d3248ba8dba4dccfdc328e27efc42b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 17/24] fix: randoms().uniform() and triangular() accept
 reversed bounds

---
 .../src/hypothesis/strategies/_internal/random.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 7dc4ca2..aee3ea7 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -239,7 +239,7 @@ class ArtificialRandom(HypothesisRandom):
         elif method == "uniform":
             a = normalize_zero(kwargs["a"])
             b = normalize_zero(kwargs["b"])
-            result = self.__data.draw(floats(a, b))
+            result = self.__data.draw(floats(min(a, b), max(a, b)))
         elif method in ("weibullvariate", "gammavariate"):
             result = self.__data.draw(floats(min_value=0.0, allow_infinity=False))
         elif method in ("gauss", "normalvariate"):
@@ -315,11 +315,12 @@ class ArtificialRandom(HypothesisRandom):
             high = normalize_zero(kwargs["high"])
             mode = normalize_zero(kwargs["mode"])
             if mode is None:
-                result = self.__data.draw(floats(low, high))
+                a, b = low, high
             elif self.__data.draw_boolean(0.5):
-                result = self.__data.draw(floats(mode, high))
+                a, b = mode, high
             else:
-                result = self.__data.draw(floats(low, mode))
+                a, b = low, mode
+            result = self.__data.draw(floats(min(a, b), max(a, b)))
         elif method == "expovariate" and kwargs["lambd"] < 0:
             result = self.__data.draw(floats(max_value=0.0))
         elif method in ("paretovariate", "expovariate", "lognormvariate"):
-- 
2.43.0


From bedd52230febc3e5764da037e94058fb26ba9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 18/24] fix: randoms().sample() supports counts

---
 .../src/hypothesis/strategies/_internal/random.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index aee3ea7..f4220c4 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -210,6 +210,21 @@ class ArtificialRandom(HypothesisRandom):
         return result
 
     def _hypothesis_do_random(self, method, kwargs):
+        if method == "sample" and kwargs.get("counts") is not None:
+            # sampling with counts is sampling from the repeated elements
+            population = list(kwargs["population"])
+            counts = list(kwargs["counts"])
+            if len(counts) != len(population):
+                raise ValueError("The number of counts does not match the population")
+            if any(n < 0 for n in counts):
+                raise ValueError("Counts must be non-negative")
+            kwargs = {
+                **kwargs,
+                "population": [
+                    x for x, n in zip(population, counts) for _ in range(n)
+                ],
+            }
+
         if method == "choices":
             key = (method, len(kwargs["population"]), kwargs.get("k"))
         elif method == "choice":
-- 
2.43.0


From c151ab13178ac2f3937a6d213dd319772f1a5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 19/24] fix: lists of unique samples close their last span

---
 .../src/hypothesis/strategies/_internal/collections.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index 72bd53e..f326d80 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -321,7 +321,9 @@ class UniqueSampledListStrategy(UniqueListStrategy):
 
         remaining = LazySequenceCopy(self.element_strategy.elements)
 
-        while remaining and should_draw.more():
+        while remaining:
+            if not should_draw.more():
+                break
             j = data.draw_integer(0, len(remaining) - 1)
             value = self.element_strategy._transform(remaining.pop(j))
             if value is not filter_not_satisfied and all(
@@ -336,6 +338,11 @@ class UniqueSampledListStrategy(UniqueListStrategy):
                 should_draw.reject(
                     "UniqueSampledListStrategy filter not satisfied or value already seen"
                 )
+        else:
+            # We ran out of elements before being told to stop, so the span of the
+            # last one is still open.
+            if should_draw.drawn:
+                should_draw.stop_span()
         if len(result) < self.min_size:
             # We ran out of elements, because some were equal or filtered out.
             data.mark_invalid(
-- 
2.43.0


From db9383c47a09c0d7dc6fe82fca2eac7ce6d7c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 20/24] fix: floats() does not generate subnormal bounds with
 allow_subnormal=False

---
 .../src/hypothesis/internal/floats.py         | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/floats.py b/hypothesis-python/src/hypothesis/internal/floats.py
index 7083519..6dc7a99 100644
--- a/hypothesis-python/src/hypothesis/internal/floats.py
+++ b/hypothesis-python/src/hypothesis/internal/floats.py
@@ -170,19 +170,22 @@ def make_float_clamper(
         mant = float_to_int(abs(f)) & mantissa_mask
         f = min_value + range_size * (mant / mantissa_mask)
 
+        # Re-enforce the bounds (just in case of floating point arithmetic error)
+        f = clamp(min_value, f, max_value)
+
         # if we resampled into the space disallowed by smallest_nonzero_magnitude,
-        # default to smallest_nonzero_magnitude.
+        # default to smallest_nonzero_magnitude, or to its negation if that is
+        # larger than max_value. If neither is within the bounds, the only value
+        # they allow is zero.
         if 0 < abs(f) < smallest_nonzero_magnitude:
-            f = smallest_nonzero_magnitude
-            # we must have either -smallest_nonzero_magnitude <= min_value or
-            # smallest_nonzero_magnitude >= max_value, or no values would be
-            # possible. If smallest_nonzero_magnitude is not valid (because it's
-            # larger than max_value), then -smallest_nonzero_magnitude must be valid.
-            if smallest_nonzero_magnitude > max_value:
-                f *= -1
-
-        # Re-enforce the bounds (just in case of floating point arithmetic error)
-        return clamp(min_value, f, max_value)
+            if smallest_nonzero_magnitude <= max_value:
+                f = smallest_nonzero_magnitude
+            elif -smallest_nonzero_magnitude >= min_value:
+                f = -smallest_nonzero_magnitude
+            else:
+                f = clamp(min_value, 0.0, max_value)
+
+        return f
 
     return float_clamper
 
-- 
2.43.0


From da2e33c53d301e4da5724d71e2774affed5087f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 21/24] fix: drawing instead of discarding is reported as flaky

---
 .../src/hypothesis/internal/conjecture/datatree.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/datatree.py b/hypothesis-python/src/hypothesis/internal/conjecture/datatree.py
index 24c8653..dfa2989 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/datatree.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/datatree.py
@@ -1095,6 +1095,10 @@ class TreeRecordingObserver(DataObserver):
                 # We tried to draw where history says we should have
                 # stopped
                 raise FlakyStrategyDefinition(_FLAKY_STRAT_MSG)
+            elif isinstance(trans, Killed):
+                # We tried to draw where history says we should have
+                # discarded what was drawn so far
+                raise FlakyStrategyDefinition(_FLAKY_STRAT_MSG)
             else:
                 assert isinstance(trans, Branch), trans
                 if choice_type != trans.choice_type or constraints != trans.constraints:
-- 
2.43.0


From dfb6c331b401b98d8e5a0cbfb8c398d7e9bf69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 22/24] fix: a stale database entry is cleared even if
 replaying it completes the run

---
 .../src/hypothesis/internal/conjecture/engine.py       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index 2d9c760..d3403e4 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -867,7 +867,15 @@ class ConjectureRunner:
                     # clear out any keys which fail deserialization
                     self.settings.database.delete(self.database_key, existing)
                     continue
-                data = self.cached_test_function(choices, extend="full")
+                try:
+                    data = self.cached_test_function(choices, extend="full")
+                except RunIsComplete:
+                    # this was the last test case we had time for, but it might
+                    # nonetheless no longer be interesting.
+                    if self.stats_per_test_case[-1]["status"] != "interesting":
+                        self.settings.database.delete(self.database_key, existing)
+                        self.settings.database.delete(self.secondary_key, existing)
+                    raise
                 if data.status != Status.INTERESTING:
                     self.settings.database.delete(self.database_key, existing)
                     self.settings.database.delete(self.secondary_key, existing)
-- 
2.43.0


From 4f9da7b587e1c5706f9f37767dd0e3056bf3412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 23/24] fix: register_random() manages generators equal to
 registered ones

---
 hypothesis-python/src/hypothesis/internal/entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/entropy.py b/hypothesis-python/src/hypothesis/internal/entropy.py
index d7ce146..2b05d7c 100644
--- a/hypothesis-python/src/hypothesis/internal/entropy.py
+++ b/hypothesis-python/src/hypothesis/internal/entropy.py
@@ -115,7 +115,7 @@ def register_random(r: RandomLike) -> None:
     if not (hasattr(r, "seed") and hasattr(r, "getstate") and hasattr(r, "setstate")):
         raise InvalidArgument(f"{r=} does not have all the required methods")
 
-    if r in RANDOMS_TO_MANAGE.values():
+    if id(r) in map(id, RANDOMS_TO_MANAGE.values()):
         return
 
     if not (PYPY or GRAALPY):  # pragma: no branch
-- 
2.43.0


From e10bcdf06ab2d514ef6a3626e198b2732b7334a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 24/24] fix: rules consume values of Bundle(consume=True)

---
 hypothesis-python/src/hypothesis/stateful.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 2ade095..4e52b74 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -482,8 +482,7 @@ class Rule:
             assert not isinstance(v, BundleReferenceStrategy)
             if isinstance(v, Bundle):
                 bundles.append(v)
-                consume = isinstance(v, BundleConsumer)
-                v = BundleReferenceStrategy(v.name, consume=consume)
+                v = BundleReferenceStrategy(v.name, consume=v._consume)
             self.arguments_strategies[k] = v
         self.bundles = tuple(bundles)
 
@@ -542,6 +541,7 @@ class Bundle(SearchStrategy[Ex]):
         self, name: str, *, consume: bool = False, draw_references: bool = True
     ) -> None:
         self.name = name
+        self._consume = consume
         self.__reference_strategy = BundleReferenceStrategy(name, consume=consume)
         self.draw_references = draw_references
 
-- 
2.43.0

