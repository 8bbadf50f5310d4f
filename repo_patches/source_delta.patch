From a8876884ea499f230e1b76db3ba2e3a528c55fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 01/24] fix: measure the integration time budget on the
 monotonic clock

A wall-clock step backwards during integrate() prolonged the two-second budget
without bound, and a step forwards cut a solvable integral off.
---
 src/simpy/integration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 11c634b..bd70655 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -235,11 +235,11 @@ class Integration:
         root = Node(integrand.simplify(), var)
         _integrate_safely(root)
         curr_node = root
-        start = time.time()
+        start = time.monotonic()
         while True:
             answer = self._cycle(curr_node)
 
-            current = time.time()
+            current = time.monotonic()
             if current - start >= self._timeout:
                 break
             if root.is_finished:
-- 
2.43.0


From 163018296396fc33478f85b96084236c90f3a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 02/24] fix: keep the plain sin and cos factors in
 product_to_sum

When a product had a factor that is not a sine or cosine (a power of one),
the plain sine and cosine factors were left out of the rewritten product, so
integrate(cos(x)*cos(2*x)**2*sin(2*x)**4) gave the integral of something else.
---
 src/simpy/simplify/product_to_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/product_to_sum.py b/src/simpy/simplify/product_to_sum.py
index 26d81e0..5b9e174 100644
--- a/src/simpy/simplify/product_to_sum.py
+++ b/src/simpy/simplify/product_to_sum.py
@@ -73,7 +73,7 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             return
 
         if any(not isinstance(t, (sin, cos)) for t in new_expr.terms):
-            new_terms = [product_to_sum_unit(t) for t in new_expr.terms if not isinstance(t, (sin, cos))]
+            new_terms = [t if isinstance(t, (sin, cos)) else product_to_sum_unit(t) for t in new_expr.terms]
             return _product_to_sum(Prod(new_terms).expand().terms, multiplier=const)
 
         return _perform_on_terms(
-- 
2.43.0


From d2ce1cbf7e077269963fe1d9ccb32f452e1233b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 03/24] fix: solve cyclic integration by parts without changing
 the sibling's solution

The cyclic case divided the ancestor's boundary term in place, each time a
heuristic met the cycle, and gave the inner integral a solution that is not its
antiderivative. Solve for the inner integral instead; going back to the
ancestor gives the same answer.
---
 src/simpy/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b1347b3..e32c3f6 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -825,8 +825,8 @@ class ByParts(Transform):
                     first_factor = self._get_first_factor(parent_byparts, node)
                     factor = first_factor * second_factor
                     other_uv = parent_byparts.child
-                    other_uv.solution /= 1 - factor  # mutating is sus
-                    solution = child1 / (1 - factor)  # going back will mul it w second factor by default.
+                    # parent = other_uv + first_factor * this, and this = child1 + second_factor * parent
+                    solution = (child1 + second_factor * other_uv.solution) / (1 - factor)
                     node.add_child(
                         Node(
                             node.expr,
-- 
2.43.0


From 3665916479cafa19ec12e11a488d6d104300be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 04/24] fix: a repeated part of a conjunction makes it a dead
 end

add_children left out a child that repeats an ancestor. Under an AND node
(Additivity, ByParts) the rest then counted as the whole, and the integral of
the missing part was silently taken to be zero, e.g. sin(x)*e**(x-2) with
RewriteTrig tried before ByParts.
---
 src/simpy/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index e32c3f6..272735a 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -82,7 +82,10 @@ class Node:
         if not child.is_filler:
             parents = _parents(self)
             if any(eq_with_var((p.expr, p.var), (child.expr, child.var)) for p in parents):
-                return
+                if self.type != "AND":
+                    return
+                # every part of a conjunction is needed, so one we may not explore makes it a dead end
+                child.type = "FAILURE"
         self.children.append(child)
 
     def add_children(self, children: List["Node"]) -> None:
-- 
2.43.0


From bd4f640978673df8ba51fdd29205eaa219561522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 05/24] fix: log() never changes a log that already exists

log.__new__ may return an existing log (log(2**log(x), 2)); Python then called
__init__ on it, which overwrote its inner and base for everyone holding it.
---
 src/simpy/expr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0f8311c..99627aa 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1602,11 +1602,13 @@ class log(Expr):
             if isinstance(base, Float):
                 return Float(math.log(inner.value) / math.log(base.value))
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        instance.base = base
+        return instance
 
     def __init__(self, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
-        self.inner = inner
-        self.base = base
+        # inner and base are already set in __new__, which may have returned a log that existed before.
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-- 
2.43.0


From 39051085a9582ef49e693f01c2d55e71b4f81b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 06/24] fix: remove_const_factor publishes its cache only when
 it is complete

The marker attribute was set before the second half, so another thread, or a
later call after an interrupt in between, failed with AttributeError.
---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 99627aa..057ba4f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2094,8 +2094,9 @@ def remove_const_factor(expr: Expr, include_factor=False) -> Expr:
                 else:
                     const.append(t)
 
-            expr._sans_const_cache = Prod(sans_const, skip_checks=True)
+            # _sans_const_cache says that both are there, so it comes last
             expr._const_cache = Prod(const, skip_checks=True)
+            expr._sans_const_cache = Prod(sans_const, skip_checks=True)
         if include_factor:
             return expr._sans_const_cache, expr._const_cache
         else:
-- 
2.43.0


From 16aae3edad24a2eeeb808551cef1cc37c7136ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 07/24] fix: nesting() works on one cache from check to return

Power(expr, 1) and the like return expr itself after re-running its
__post_init__, which replaces the cache; in another thread that could happen
between the store and the read, and nesting() failed with KeyError.
---
 src/simpy/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 057ba4f..d48e304 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -38,9 +38,10 @@ def nesting(expr: "Expr", var: Optional["Symbol"] = None) -> int:
     2
     """
     stri = var.name if var else ""
-    if stri not in expr._nesting_cache:
-        expr._nesting_cache[stri] = _nesting(expr, var)
-    return expr._nesting_cache[stri]
+    cache = expr._nesting_cache  # constructing e.g. expr**1 gives the same object a new cache
+    if stri not in cache:
+        cache[stri] = _nesting(expr, var)
+    return cache[stri]
 
 
 def _nesting(expr: "Expr", var: "Symbol") -> int:
-- 
2.43.0


From b4a2361a7940b34084bbe036c48afb6c69aad0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 08/24] fix: flattening terms leaves the flattened expression
 as it was

---
 src/simpy/expr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d48e304..b9a4982 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -296,8 +296,7 @@ class Associative:
         new_terms = []
         for t in terms:
             if isinstance(t, cls):
-                t._flatten()
-                new_terms += t.terms
+                new_terms += cls._flatten_terms(t.terms)
             else:
                 new_terms += [t]
         return new_terms
-- 
2.43.0


From 9ee4ef1086e42d183ea592435d9d26c33e0707ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 09/24] fix: a tree whose search was cut off before going
 backwards can be printed

---
 src/simpy/debug/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simpy/debug/tree.py b/src/simpy/debug/tree.py
index 85e7887..c880d23 100644
--- a/src/simpy/debug/tree.py
+++ b/src/simpy/debug/tree.py
@@ -1,5 +1,5 @@
 from collections import defaultdict
-from typing import Dict
+from typing import Dict, Optional
 
 from ..expr import Expr, Symbol, nesting
 from ..regex import replace, replace_factory
@@ -15,7 +15,9 @@ def print_tree(root: Node, show_stale=True, show_failures=True, show_solution=Fa
     if (not show_failures) and root.is_failed:
         return
 
-    def _exprify(expr: Expr):
+    def _exprify(expr: Optional[Expr]):
+        if expr is None:  # solved through its children, but the search never went backwards to here
+            return None
         if root.var.name.startswith("u_"):
             if not _vardict[root.var.name]:
                 new_name = "u_" + str(len(_vardict))
-- 
2.43.0


From dd1643934a36e9baba547d56aa917c9d513bee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 10/24] fix: dumping a log that has no entries yet

---
 src/simpy/debug/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/debug/logger.py b/src/simpy/debug/logger.py
index 064c0a8..0b1974a 100644
--- a/src/simpy/debug/logger.py
+++ b/src/simpy/debug/logger.py
@@ -42,6 +42,9 @@ class Logger:
             for k, v in self._data.items():
                 f.write(f"{k}: {v.time_spent}\n")
 
+            if not self._data:
+                return
+
             # For the one with the most time spent, print the tree.
             f.write("\n\n\n")
             f.write("Most time spent: \n")
-- 
2.43.0


From 5e75eb10fb72fadc3761d3ab674569cd38e66511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:59 +0000
Subject: [PATCH 11/24] fix: dumping the log while other threads integrate
 neither loses entries nor fails

---
 src/simpy/debug/logger.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/simpy/debug/logger.py b/src/simpy/debug/logger.py
index 0b1974a..f7b53c7 100644
--- a/src/simpy/debug/logger.py
+++ b/src/simpy/debug/logger.py
@@ -1,3 +1,4 @@
+import threading
 import time
 from typing import Dict, NamedTuple
 
@@ -23,34 +24,42 @@ class Logger:
 
     def __init__(self):
         self._data = {}
+        self._lock = threading.Lock()
 
     def log(self, expr: Expr, time_spent: float, root: Node):
-        self._data[str(expr)] = Datum(expr, time_spent, root)
+        key = str(expr)
+        with self._lock:
+            self._data[key] = Datum(expr, time_spent, root)
 
     @property
     def data(self) -> Dict[str, float]:
         return self._data
 
-    def sort(self):
-        """sorts the data by time spent on each integral, from most time to least time."""
-        self._data = dict(sorted(self._data.items(), key=lambda x: x[1].time_spent, reverse=True))
+    def sort(self) -> Dict[str, Datum]:
+        """sorts the data by time spent on each integral, from most time to least time.
+
+        returns a copy of the sorted data, which entries made later (by other threads) don't change.
+        """
+        with self._lock:
+            self._data = dict(sorted(self._data.items(), key=lambda x: x[1].time_spent, reverse=True))
+            return dict(self._data)
 
     def dump(self):
-        self.sort()
+        data = self.sort()
 
         with open("integration_log.txt", "w") as f:
-            for k, v in self._data.items():
+            for k, v in data.items():
                 f.write(f"{k}: {v.time_spent}\n")
 
-            if not self._data:
+            if not data:
                 return
 
             # For the one with the most time spent, print the tree.
             f.write("\n\n\n")
             f.write("Most time spent: \n")
-            print_solution_tree(self._data[list(self._data.keys())[0]].root, func=lambda x: f.write(f"{x}\n"))
+            print_solution_tree(data[list(data.keys())[0]].root, func=lambda x: f.write(f"{x}\n"))
             f.write("\n\n\n")
-            print_tree(self._data[list(self._data.keys())[0]].root, func=lambda x: f.write(f"{x}\n"))
+            print_tree(data[list(data.keys())[0]].root, func=lambda x: f.write(f"{x}\n"))
 
     def plot(self):
         import matplotlib.pyplot as plt
-- 
2.43.0


From a12bcd59a4b56fbad1e6ef50a1d4e90c1105ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 12/24] fix: an intermediate variable never has the name of a
 symbol of the integrand

---
 src/simpy/debug/_dead_transforms.py |  2 +-
 src/simpy/transforms.py             | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/simpy/debug/_dead_transforms.py b/src/simpy/debug/_dead_transforms.py
index 728726c..69b8966 100644
--- a/src/simpy/debug/_dead_transforms.py
+++ b/src/simpy/debug/_dead_transforms.py
@@ -96,7 +96,7 @@ class SinUSub(USub):
         return False
 
     def forward(self, node: Node) -> None:
-        intermediate = generate_intermediate_var()
+        intermediate = generate_intermediate_var(node.expr)
         dy_dx = self._sin.diff(node.var)
         new_integrand = replace(node.expr, self._sin, intermediate) / dy_dx
         # should be done in check, here is a patch.
diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 272735a..e8ab3e7 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -399,7 +399,7 @@ class TrigUSub2(USub):
     }
 
     def forward(self, node: Node):
-        intermediate = generate_intermediate_var()
+        intermediate = generate_intermediate_var(node.expr)
         expr = node.expr
         # y = tanx
         cls, dy_dx = self._table[self._key]
@@ -501,7 +501,7 @@ class InverseTrigUSub(USub):
     }
 
     def forward(self, node: Node):
-        intermediate = generate_intermediate_var()
+        intermediate = generate_intermediate_var(node.expr)
         cls, q, dy_dx, var_change = self._table[self._key]
         dy_dx = dy_dx(intermediate)
         new_integrand = replace(node.expr, node.var, cls(intermediate)) * dy_dx
@@ -576,7 +576,7 @@ class PolynomialUSub(USub):
         return count_ > 0 and count_ == count(rest, node.var)
 
     def forward(self, node: Node) -> None:
-        intermediate = generate_intermediate_var()
+        intermediate = generate_intermediate_var(node.expr)
         dx_dy = self._u.diff(node.var)
         new_integrand = replace(node.expr, self._u, intermediate) / dx_dy
         new_integrand = new_integrand
@@ -656,7 +656,7 @@ class LinearUSub(USub):
         return _check(node.expr)
 
     def forward(self, node: Node) -> None:
-        intermediate = generate_intermediate_var()
+        intermediate = generate_intermediate_var(node.expr)
         du_dx = self._u.diff(node.var)
 
         # We have to account for the case where self._u doesn't appear directly
@@ -962,7 +962,7 @@ class GenericUSub(USub):
         return False
 
     def forward(self, node: Node) -> None:
-        intermediate = generate_intermediate_var()
+        intermediate = generate_intermediate_var(node.expr)
         du_dx = self._u.diff(node.var)
         new_integrand = replace((node.expr / du_dx), self._u, intermediate)
         node.add_child(Node(new_integrand, intermediate, self, node))
@@ -1136,5 +1136,9 @@ SAFE_TRANSFORMS: List[Type[Transform]] = [
 ]
 
 
-def generate_intermediate_var() -> Symbol:
-    return symbols(f"u_{random_id(10)}")
+def generate_intermediate_var(expr: Expr) -> Symbol:
+    """a symbol that doesn't occur in expr, whatever the symbols there are called"""
+    name = f"u_{random_id(10)}"
+    while expr.contains(Symbol(name)):
+        name += random_id(1)
+    return symbols(name)
-- 
2.43.0


From a0a87d81248d450efe261a5175a9ba734a1ac277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 13/24] fix: matching a sum compares matches with matches, not
 with the printed form of a term

---
 src/simpy/regex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index e7480c0..1d42ef8 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -213,7 +213,9 @@ class Eq:
                     for expr_term in expr.terms:
                         output = Eq(expr_term, query_term, decompose_singles=False)()
                         is_eq, anyfinds = output.get("success"), output.get("matches")
-                        if is_eq and all(any(_matches_eq(x, anyfinds) for x in y) for y in query_matches.values()):
+                        if is_eq and all(
+                            any(_matches_eq(x, anyfinds) for x in y.values()) for y in query_matches.values()
+                        ):
                             query_matches[repr(query_term)][repr(expr_term)] = anyfinds
 
                     if len(query_matches[repr(query_term)]) == 0:
-- 
2.43.0


From 3403ddcf7ad39836c41f4c3972a966597f320cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 14/24] fix: a perfect square in a denominator is not completed
 (division by sqrt(0)), nor expanded

---
 src/simpy/transforms.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index e8ab3e7..9c0e983 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -330,6 +330,10 @@ class Expand(SafeTransform):
         if isinstance(t, CompleteTheSquare):
             return False
 
+        # 1/(x-3)^2 is easier than 1/(x^2-6x+9)
+        if isinstance(node.expr, Power) and node.expr.exponent.is_subtraction:
+            return False
+
         return node.expr.expandable()
 
     def backward(self, node: Node) -> None:
@@ -972,6 +976,12 @@ class GenericUSub(USub):
 class CompleteTheSquare(Transform):
     """Integration via completing the square"""
 
+    @staticmethod
+    def _is_perfect_square(poly: Polynomial) -> bool:
+        """whether the quadratic is a constant times (x + k)^2"""
+        c, b, a = poly
+        return (b**2 - 4 * a * c).simplify() == 0
+
     def check(self, node: Node) -> bool:
         if super().check(node) is False:
             return False
@@ -993,10 +1003,11 @@ class CompleteTheSquare(Transform):
 
             # hmm completing the square could work on non-quadratics in some cases no?
             # but I'll just limit it to quadratics for now
-            return poly.size == 3 and poly[1] != 0
+            return poly.size == 3 and poly[1] != 0 and not self._is_perfect_square(poly)
             # poly[1] = 0 implies that there's no bx term
             # which means that there's no square to complete.
             # the result will just be the same as the original.
+            # and if it's a square already there's nothing left over to complete it with.
 
         return general_contains(node.expr, condition)
 
@@ -1007,7 +1018,7 @@ class CompleteTheSquare(Transform):
                 poly = to_const_polynomial(expr, node.var)
             except AssertionError:
                 return False
-            return poly.size == 3
+            return poly.size == 3 and not self._is_perfect_square(poly)
 
         def perform(expr: Expr) -> Expr:
             poly = to_const_polynomial(expr, node.var)
-- 
2.43.0


From 7bd4cb87eb435a4bd2f640c3f5217c45a424547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 15/24] fix: partial fractions only of linear factors

---
 src/simpy/transforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 9c0e983..f0ff36c 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -919,8 +919,14 @@ class PartialFractions(Transform):
         if not (d1.contains(node.var) and d2.contains(node.var)):
             return False
 
-        d1_list = to_const_polynomial(d1, node.var)
-        d2_list = to_const_polynomial(d2, node.var)
+        try:
+            d1_list = to_const_polynomial(d1, node.var)
+            d2_list = to_const_polynomial(d2, node.var)
+        except AssertionError:
+            return False
+        # and that they're both linear
+        if d1_list.size != 2 or d2_list.size != 2:
+            return False
 
         matrix = np.array([d2_list, d1_list]).T
         inv = invert(matrix)
-- 
2.43.0


From e55d6e8be792b321a64d94be3b56002cd4276984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 16/24] fix: by parts counts the constants pulled out since the
 last layer

---
 src/simpy/transforms.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index f0ff36c..5d99977 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -742,6 +742,13 @@ class ByParts(Transform):
         # check for more layers above -- if any of the integrands is the same, factor = 1 and it's a nogo.
         # honestly this is a bit sad; why don't we just always check that a node doesn't appear in its parents?
         byparts_parents = ByParts._get_all_byparts_parents(node)
+        # in the last layer, what counts includes the constants that have been pulled out since
+        parent_byparts = ByParts._get_last_byparts_parent(node)
+        first_factor = ByParts._get_first_factor(parent_byparts, node) if parent_byparts else None
+        if first_factor is not None:
+            if (first_factor * integrand2 / parent_byparts.expr).simplify() == 1:
+                return False
+            byparts_parents = [p for p in byparts_parents if p is not parent_byparts]
         old_byparts_integrands = [node.expr for node in byparts_parents]
         if integrand2 in old_byparts_integrands:
             return False
@@ -787,12 +794,14 @@ class ByParts(Transform):
         return _check(a, b) or _check(b, a)
 
     @staticmethod
-    def _get_first_factor(parent_byparts: Node, node: Node) -> Expr:
-        if parent_byparts.children[1] == node:
-            return Rat(1)
-        elif isinstance(node.transform, PullConstant) and parent_byparts.children[1].child == node:
-            return node.transform._constant
-        raise ValueError
+    def _get_first_factor(parent_byparts: Node, node: Node) -> Optional[Expr]:
+        """The constants pulled out on the way from the integral that by parts left over to node.
+        None if node is only a part of that integral."""
+        factor = Rat(1)
+        while isinstance(node.transform, PullConstant):
+            factor = factor * node.transform._constant
+            node = node.parent
+        return factor if node is parent_byparts.children[1] else None
 
     def forward(self, node: Node) -> None:
         # This is tricky bc you have 2 layers of children here.
@@ -826,10 +835,10 @@ class ByParts(Transform):
             ### special case: when parent is same as you 2 layers above
             # this isnt the most elegant but it works lol
             parent_byparts = self._get_last_byparts_parent(node)
-            if parent_byparts:
+            first_factor = self._get_first_factor(parent_byparts, node) if parent_byparts else None
+            if first_factor is not None:
                 second_factor = integrand2 / parent_byparts.expr
                 if not second_factor.contains(node.var):
-                    first_factor = self._get_first_factor(parent_byparts, node)
                     factor = first_factor * second_factor
                     other_uv = parent_byparts.child
                     # parent = other_uv + first_factor * this, and this = child1 + second_factor * parent
-- 
2.43.0


From b2b72c028854b8e2cbc6580161eba38b6723d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 17/24] fix: decimal numbers have the cached facts every
 expression has, and sums with decimal coefficients can be factored

---
 src/simpy/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b9a4982..46908d2 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -479,6 +479,7 @@ class Float(Num, Expr):
 
     def __init__(self, value):
         self.value = value
+        super().__post_init__()
 
     def latex(self):
         return repr(self)
@@ -998,9 +999,9 @@ class Sum(Associative, Expr):
         # Factor coeffs
         common_coeff = abs(coeffs[0])
         for c in coeffs[1:]:
-            x: Rat = c / common_coeff
-            y: Rat = common_coeff / c
-            if x.value.denominator == 1 or y.value.denominator == 1:
+            x: Num = c / common_coeff
+            y: Num = common_coeff / c
+            if x.is_int or y.is_int:
                 common_coeff = min(abs(c), abs(common_coeff))
             else:
                 common_coeff = None
-- 
2.43.0


From 853555d725993df50780848074b9c64a56ef2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 18/24] fix: inverse trigonometric functions of zero

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 46908d2..742e330 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1979,7 +1979,7 @@ class asin(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in sin.special_values}
+        return {"0": Rat(0)}
 
 
 class acos(TrigFunction):
@@ -1992,7 +1992,7 @@ class acos(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in cos.special_values}
+        return {"0": pi / 2}
 
 
 class atan(TrigFunction):
@@ -2005,7 +2005,7 @@ class atan(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in tan.special_values}
+        return {"0": Rat(0)}
 
 
 class Abs(SingleFunc):
-- 
2.43.0


From 5fe79ef22a7aa002a7e9a63cd295fc6eef660e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 19/24] fix: the derivative of asin(1) and acos(1) is zero, not
 nan

---
 src/simpy/expr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 742e330..2033ff9 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1975,6 +1975,8 @@ class asin(TrigFunction):
     _func = math.asin
 
     def diff(self, var):
+        if not self.contains(var):  # the factor may be infinite
+            return Rat(0)
         return 1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
@@ -1988,6 +1990,8 @@ class acos(TrigFunction):
     _func = math.acos
 
     def diff(self, var):
+        if not self.contains(var):  # the factor may be infinite
+            return Rat(0)
         return -1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
-- 
2.43.0


From dab0e24cb828dda1c07f5de93c584921485f44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 20/24] fix: the logarithm of a negative decimal stays
 symbolic, like that of a rational

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 2033ff9..88cd56f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1597,7 +1597,7 @@ class log(Expr):
             return Rat(1)
         if isinstance(inner, Power) and inner.base == base:
             return inner.exponent
-        if isinstance(inner, Float):
+        if isinstance(inner, Float) and inner.value > 0:
             if base == e:
                 return Float(math.log(inner.value))
             if isinstance(base, Float):
-- 
2.43.0


From 8b397b0fd35fd980df9fce81925b945a0afa502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:42 +0000
Subject: [PATCH 21/24] fix: sectan compares the number of terms with the
 number of terms

---
 src/simpy/simplify/simplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2960f29..d948250 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -351,7 +351,7 @@ def sectan(sum: Expr) -> Optional[Expr]:
         # This must mean that we simplified the sum into one term
         return new_sum
 
-    if len(new_sum.terms) < sum.terms:
+    if len(new_sum.terms) < len(sum.terms):
         return new_sum
 
 
-- 
2.43.0


From a54cea1213e29f09822351f3e4f3e07acdf5ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:55 +0000
Subject: [PATCH 22/24] fix: sectan does not assume that a rewritten secant can
 be expanded

---
 src/simpy/simplify/simplify.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index d948250..854dc7b 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -342,9 +342,8 @@ def sectan(sum: Expr) -> Optional[Expr]:
 
     for s in secs:
         new = replace_factory(condition, perform)(s)
-        new = new.expand() if new.expandable() else s
-        assert isinstance(new, Sum)
-        tans.extend(new.terms)
+        new = new.expand() if new.expandable() else new
+        tans.extend(new.terms if isinstance(new, Sum) else [new])
 
     new_sum = Sum(tans + others)
     if not isinstance(new_sum, Sum):
-- 
2.43.0


From 0be6a9da0157472ddfb4db487095bebb9d406fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:24 +0000
Subject: [PATCH 23/24] fix: leave a fractional power of a negative decimal as
 it is

---
 src/simpy/expr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 88cd56f..0b1ef20 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -733,7 +733,11 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
-        return Const(b.value**x.value)
+        ans = b.value**x.value
+        if isinstance(ans, complex):
+            # a root of a negative number: cannot be simplified further, as below.
+            return
+        return Const(ans)
 
     if b == 0:
         if x > 0:
-- 
2.43.0


From 821e56d7ec24aa724d0b7e4918250535bee29ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:06 +0000
Subject: [PATCH 24/24] fix: derivative of an absolute value (had the wrong
 sign for negative arguments)

---
 src/simpy/expr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0b1ef20..c3ac1f2 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -15,7 +15,6 @@ so I don't really mind the lack of float support, but I can see why you'd be ann
 import inspect
 import itertools
 import math
-import warnings
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, fields
 from fractions import Fraction
@@ -2048,8 +2047,7 @@ class Abs(SingleFunc):
         return super().__new__(cls)
 
     def diff(self, var) -> Expr:
-        warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-        return self.inner.diff(var)
+        return self.inner.diff(var) * self / self.inner
 
     def _evalf(self, subs: Dict[str, Expr]) -> Expr:
         return Abs(self.inner._evalf(subs))
-- 
2.43.0

