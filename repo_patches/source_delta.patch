From 114313c93a93dbc49e6be7c80cd2e3f6ed7740be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 01/34] fix: dispatch completions() on the operator it is given

---
 neutrinomass/completions/completions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index d97eec2..9869649 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1272,11 +1272,11 @@ def deriv_operator_completions(
     return comps
 
 
-def completions(*args, **kwargs):
+def completions(operator: EffectiveOperator, *args, **kwargs):
     """General dispatch function for completions"""
     if "D" in operator.name:
-        return deriv_operator_completions(*args, **kwargs)
-    return operator_completions(*args, **kwargs)
+        return deriv_operator_completions(operator, *args, **kwargs)
+    return operator_completions(operator, *args, **kwargs)
 
 
 def collect_models(comps):
-- 
2.43.0


From e43ba79f945b58b8edde441faf4987df426ee3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 02/34] fix: name the vanishing term in construct_completion's
 failure reason

---
 neutrinomass/completions/completions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 9869649..f43e745 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -909,7 +909,7 @@ def construct_completion(partition, gauge_epsilons, graph) -> Union[str, tuple]:
             return proc_term
 
         if proc_term.safe_simplify() == 0:
-            return f"Vanishing coupling at {maybe_term} after derivative processing."
+            return f"Vanishing coupling at {prod} after derivative processing."
 
     # make sure the term is a singlet
     check_singlet(proc_term)
-- 
2.43.0


From 57e0657127941b7b5cd0f6f01ac2a453095bd54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 03/34] fix: undefined names in completions.utils

---
 neutrinomass/completions/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index fa1f298..95f9077 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import re
+from collections import Counter
 from typing import List, Callable, TypeVar
 from copy import deepcopy
 
@@ -32,7 +33,7 @@ def foldr(func, xs, acc=None):
 def fixedpoint(f, x):
     """Applies f o f o f ... f(x) until output is unchanged."""
     app = f(x)
-    while application != x:
+    while app != x:
         return fixedpoint(f, app)
     return x
 
-- 
2.43.0


From 347cd82813e24f780236bb82402271d7241a20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 04/34] fix: define filtered_models in d9

---
 neutrinomass/completions/d9.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/d9.py b/neutrinomass/completions/d9.py
index 6e4c062..201af0f 100644
--- a/neutrinomass/completions/d9.py
+++ b/neutrinomass/completions/d9.py
@@ -18,7 +18,7 @@ for label, op in EFF_OPERATORS.items():
     else:
         break
 
-prev = {}
+prev, filtered_models = {}, {}
 for dim, models in completions.items():
     collected = collect_completions(models)
     filtered = filter_completions(collected, prev)
-- 
2.43.0


From 6ff65f11e7263ae77acad71253f90afb8c6ab272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 05/34] fix: import display where Completion.info uses it

---
 neutrinomass/completions/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 04b4c37..ea3d10b 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -484,6 +484,8 @@ class Completion:
         in_jupyter = sys.argv[-1].endswith("json")
         for term in self.terms:
             if in_jupyter:
+                from IPython.display import display
+
                 display(term)
             else:
                 print(term)
-- 
2.43.0


From 4c35f54c4fdeb6cbe44792fcbcc656501f5aff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 06/34] fix: drop import of a Hilbert series parse_hs does not
 define

---
 neutrinomass/tensormethod/operatorxcheck.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neutrinomass/tensormethod/operatorxcheck.py b/neutrinomass/tensormethod/operatorxcheck.py
index ae29117..e8daf48 100644
--- a/neutrinomass/tensormethod/operatorxcheck.py
+++ b/neutrinomass/tensormethod/operatorxcheck.py
@@ -3,7 +3,6 @@
 """Script to check that no operators are missing from the numbered list."""
 
 from neutrinomass.tensormethod.parse_hs import parse
-from neutrinomass.tensormethod.parse_hs import H6_NF3
 from neutrinomass.tensormethod.parse_hs import H7_LNV_NF3
 from neutrinomass.tensormethod.parse_hs import H9_LNV_NF3
 from neutrinomass.tensormethod.parse_hs import H11_LNV_NF3
-- 
2.43.0


From a35a39c3e8b59520e9de23505a58de229e87f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 07/34] fix: collect_completions keeps every completion of a
 field content

---
 neutrinomass/completions/completions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index f43e745..eb5371d 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1107,7 +1107,7 @@ def collect_completions(
         g_list = list(g)
         # slow_remove_equivalent_completions(g_list)
         k = tuple(sorted(set(k)))
-        out[k] = g_list
+        out.setdefault(k, []).extend(g_list)
 
     return out
 
-- 
2.43.0


From 08aeac124e31703d78ae6b49da49bf6b774c4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 08/34] fix: ModelDatabase.force keeps the completions of every
 operator

---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 5d2239c..d62aaae 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -287,8 +287,7 @@ class ModelDatabase:
             return
 
         self.is_forced = True
-        for k, v in self.data.items():
-            self.data = {k: [m.force() for m in v]}
+        self.data = {k: [m.force() for m in v] for k, v in self.data.items()}
 
     def democratic_remove_equivalent_models(self):
         """Removes duplicate models only by field content"""
-- 
2.43.0


From 237951021476921f63990c52d93b5e3481bf74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 09/34] fix: initialise ModelDatabase.is_ordered however the
 data is loaded

---
 neutrinomass/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index d62aaae..441db68b 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -159,6 +159,7 @@ class ModelDatabase:
         self.philosophy = philosophy
         self.criterion = criterion
         self.is_forced = False
+        self.is_ordered = False
 
         assert self.philosophy in {"democratic", "stringent"}
         assert self.criterion in {"mass", "dimension"}
@@ -174,7 +175,6 @@ class ModelDatabase:
 
         else:
             self.path = None
-            self.is_ordered = True
             self.data = data
 
         # initialise prime dictionary
-- 
2.43.0


From 53a254bf9a0fc590b209214865e126a587662c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 10/34] fix: ModelDatabase merges the models of an operator
 found in several files

---
 neutrinomass/database/database.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 441db68b..b3820d7 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -170,7 +170,11 @@ class ModelDatabase:
             # print("Initialising database...")
             filenames = glob(os.path.join(self.path, "*.dat"))
             mvdb_data = [dict(read_completions(f)) for f in filenames]
-            mv_dict = {k: v for d in mvdb_data for k, v in d.items()}
+            mv_dict = {}
+            for d in mvdb_data:
+                for k, v in d.items():
+                    mv_dict.setdefault(k, []).extend(v)
+
             self.data = mv_dict
 
         else:
-- 
2.43.0


From d93b8158c30b7a20cf93f9e7a80ac72bce41e072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 11/34] fix: make Completion hashable

---
 neutrinomass/completions/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index ea3d10b..a852546 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -415,7 +415,9 @@ class Completion:
         )
 
     def __hash__(self):
-        return hash((self.operator, self.exotic_info(), self.partition))
+        return hash(
+            (self.operator, frozenset(self.exotic_info().items()), self.partition)
+        )
 
     def __deepcopy__(self, memo):
         return self.__class__(
-- 
2.43.0


From aa08571c18e9202b0126d7b2ba05129777fdd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 12/34] fix: Completion.__deepcopy__ keeps the topology

---
 neutrinomass/completions/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index a852546..03dc458 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -426,6 +426,7 @@ class Completion:
             graph=deepcopy(self.graph, memo),
             exotics=deepcopy(self.exotics, memo),
             terms=deepcopy(self.terms, memo),
+            topology=self.topology,
         )
 
     @property
-- 
2.43.0


From 7a7c23ea37527fbc8f0d36596d0b606a3b979fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 13/34] fix: VectorLikeDiracFermion keeps is_unbarred when
 deep-copied

---
 neutrinomass/completions/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 03dc458..89713dd 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -321,6 +321,11 @@ class VectorLikeDiracFermion(FieldType):
             comm=self.comm,
         )
 
+    def __deepcopy__(self, memo):
+        copied = super().__deepcopy__(memo)
+        copied.is_unbarred = self.is_unbarred
+        return copied
+
     def dirac_partner(self):
         undotted, dotted, colour, isospin, _ = Index.indices_by_type(
             self.indices
-- 
2.43.0


From 058244c40635bb4d1b74cd17456bda3b1e065a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 14/34] fix: VectorLikeDiracFermion keeps its latex when
 conjugated

---
 neutrinomass/completions/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 89713dd..0f30fbb 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -300,6 +300,7 @@ class VectorLikeDiracFermion(FieldType):
             is_unbarred=self.is_unbarred,
             symmetry=self.symmetry,
             comm=self.comm,
+            latex=self.latex,
         )
 
     @property
@@ -319,6 +320,7 @@ class VectorLikeDiracFermion(FieldType):
             is_unbarred=self.is_unbarred,
             symmetry=self.symmetry,
             comm=self.comm,
+            latex=self.latex,
         )
 
     def __deepcopy__(self, memo):
-- 
2.43.0


From f9e3d7d846e8bb129ff363a9aa7422d25701ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 15/34] fix: cons_completion_field keeps the conjugation flag
 of a real scalar

---
 neutrinomass/completions/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 0f30fbb..afda50e 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -567,7 +567,9 @@ def cons_completion_field(indexed_field: IndexedField, is_unbarred=None) -> Fiel
 
     if indexed_field.is_scalar:
         if indexed_field.is_real_sm_irrep:
-            return RealScalar(label, indices, charges=charges, latex=latex)
+            return RealScalar(
+                label, indices, charges=charges, latex=latex, is_conj=is_conj
+            )
 
         return ComplexScalar(
             label, indices, charges=charges, latex=latex, is_conj=is_conj
-- 
2.43.0


From b23dac8000d4fa3598c3213c43bb8fd231e08732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 16/34] fix: hash fields independently of the order their
 charges were set in

---
 neutrinomass/tensormethod/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a6b5fef..58772c6 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -458,7 +458,7 @@ class Field:
 
         # constructe hashable structures for each unhashable
         symmetry_tuple = tuple(map(tuple, self._dict["symmetry"]))
-        charges_tuple = tuple(self.charges.items())
+        charges_tuple = tuple(sorted(self.charges.items()))
 
         data = tuple(values) + (symmetry_tuple,) + (charges_tuple,)
         return hash(data)
@@ -789,7 +789,7 @@ class IndexedField(tensor.Tensor, Field):
         )
 
     def __hash__(self):
-        charges_tuple = tuple(self.charges.items())
+        charges_tuple = tuple(sorted(self.charges.items()))
         return hash(
             (
                 self.label,
-- 
2.43.0


From 8c57b3e66dce68a66d698f8dee761a8bda04a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 17/34] fix: operator_strip_derivs keeps statistics and
 generations of the field

---
 neutrinomass/completions/completions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index eb5371d..aef9cbf 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1182,7 +1182,9 @@ def operator_strip_derivs(op: Operator) -> List[Operator]:
                 assert field.derivs == 1
                 n_derivs += 1
                 data = field.stripped
-                new_field = Field(**data, is_conj=field.is_conj)
+                new_field = Field(
+                    **data, is_conj=field.is_conj, comm=field.comm, nf=field.nf
+                )
                 indices = field.gauge_indices
                 new_fields.append((new_field, " ".join(str(i) for i in indices)))
                 # new_fields.append((new_field, indices))
-- 
2.43.0


From f7a171c5d5c8182ff559bc0a66a0ccb890a0371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 18/34] fix: get_lorentz_epsilons leaves the last of an odd
 number of indices

---
 neutrinomass/completions/completions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index aef9cbf..18c3920 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -386,7 +386,7 @@ def get_lorentz_epsilons(fields: Tuple[IndexedField]) -> Tuple[bool, List[Tensor
 
         # pair up all even indices; if odd, leave last index
         if len(indices) % 2 != 0:
-            indices.pop(-1)
+            indices = indices[:-1]
 
         for i, j in chunks(indices, 2):
             epsilons.append(eps(f"-{i} -{j}"))
-- 
2.43.0


From 6afb6755e587cd99463aff0082f41bb2b7477664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 19/34] fix: export the barred state of an exotic where it is
 read back

---
 neutrinomass/database/export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/export.py b/neutrinomass/database/export.py
index a8caf6b..c72d1dc 100644
--- a/neutrinomass/database/export.py
+++ b/neutrinomass/database/export.py
@@ -30,10 +30,11 @@ def export_tensor(tensor):
         is_unbarred = None
         if hasattr(tensor, "is_unbarred"):
             is_unbarred = tensor.is_unbarred
-        kwargs += (f"is_unbarred={is_unbarred}",)
 
         kwargs_str = ", ".join(kwargs)
-        indexed_field = f"ExoticField(IndexedField({kwargs_str}))"
+        indexed_field = (
+            f"ExoticField(IndexedField({kwargs_str}), is_unbarred={is_unbarred})"
+        )
         return indexed_field
 
     if isinstance(tensor, Field):
-- 
2.43.0


From d41caee22781ea756dd865d22aed8d5ca70a8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 20/34] fix: construct_operators does not share its stack
 between calls

---
 neutrinomass/tensormethod/contract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index 7ef3183..0ba235e 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -217,7 +217,7 @@ def term_lorentz_singlet(term: Operator) -> List[Operator]:
     return contract_su2(left=fst, right=prod, out=0, ignore=["i"])
 
 
-def construct_operators(expr_tree: Prod, _stack=[], ignore=[]) -> List[Operator]:
+def construct_operators(expr_tree: Prod, _stack=None, ignore=[]) -> List[Operator]:
     """Constructs Operator objects from product tree. There will be more than one
     since there will be many ways to contract the indices at each step.
 
@@ -225,6 +225,9 @@ def construct_operators(expr_tree: Prod, _stack=[], ignore=[]) -> List[Operator]
     # Algorithm logic: unload tree into a stack and read off elements, calling
     # contract on them and building up the operators.
 
+    if _stack is None:
+        _stack = []
+
     while isinstance(expr_tree, Prod):
         irrep, left, right = expr_tree
         _stack.append(irrep)
-- 
2.43.0


From 499ff3dbfa58d2223c571ef308fe1587a6cd6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 21/34] fix: keep_longest_invariants keeps the longest list,
 not the last

---
 neutrinomass/tensormethod/deriv_operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/tensormethod/deriv_operators.py b/neutrinomass/tensormethod/deriv_operators.py
index e250ea6..82fdf49 100644
--- a/neutrinomass/tensormethod/deriv_operators.py
+++ b/neutrinomass/tensormethod/deriv_operators.py
@@ -97,6 +97,7 @@ def keep_longest_invariants(fieldstrings: List[Field]) -> List[Operator]:
     for fieldstring in fieldstrings:
         invs = invariants(*fieldstring)
         if len(invs) > longest_len:
+            longest_len = len(invs)
             longest = invs
 
     if longest is None:
-- 
2.43.0


From 332441d4b5d5b15e6f4aa4ca8394e706ed5d544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 22/34] fix: deep-copied Operator keeps its tensors

---
 neutrinomass/tensormethod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 58772c6..2a50784 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1179,7 +1179,7 @@ class Operator(tensor.TensMul):
         return f"${self.latex()}$"
 
     def __deepcopy__(self, memo):
-        return self.__class__(tensors=deepcopy(self.tensors, memo))
+        return self.__class__(*deepcopy(self.tensors, memo))
 
     @property
     def mass_dim(self):
-- 
2.43.0


From 06892e9379810780cc05b4f658404b69f10303b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 23/34] fix: read deltas back from the pickled form of an
 operator

---
 neutrinomass/tensormethod/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 2a50784..9c10285 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -978,7 +978,12 @@ class Operator(tensor.TensMul):
 
         """
         fields = pickle_form["fields"]
-        epsilons = [eps(" ".join(indices)) for indices in pickle_form["epsilons"]]
+        epsilons = []
+        for indices in pickle_form["epsilons"]:
+            is_delta = len(indices) == 2 and Index(indices[0]).index_type == "Colour"
+            symbol = delta if is_delta else eps
+            epsilons.append(symbol(" ".join(indices)))
+
         indexed_fields = [IndexedField(**d) for d in fields]
         return cls(*indexed_fields, *epsilons)
 
-- 
2.43.0


From 339e41924f3f36de24db470a36e1c5bc73174b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 24/34] fix: conjugating a differentiated field conjugates the
 field under the derivative

---
 neutrinomass/tensormethod/core.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 9c10285..8e00278 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -513,7 +513,7 @@ class Field:
             latex=self.latex,
             nf=self.nf,
             derivs=self.derivs,
-            stripped=self.stripped,
+            stripped=conj_stripped(self.stripped),
         )
 
     def walked(self) -> Prod:
@@ -734,7 +734,7 @@ class IndexedField(tensor.Tensor, Field):
             comm=self.comm,
             nf=self.nf,
             derivs=self.derivs,
-            stripped=self.stripped,
+            stripped=conj_stripped(self.stripped),
         )
 
     @property
@@ -1191,6 +1191,19 @@ class Operator(tensor.TensMul):
         return sum(f.mass_dim for f in self.fields)
 
 
+def conj_stripped(stripped):
+    """Conjugate the data of the field under a derivative (if there is one)."""
+    if stripped is None:
+        return None
+
+    u, d, cu, cd, i = stripped["dynkin"]
+    return {
+        **stripped,
+        "dynkin": d + u + cd + cu + i,
+        "charges": {k: -v for k, v in stripped["charges"].items()},
+    }
+
+
 def assert_consistent_indices(
     indices: List[str],
     index_types: List[tensor.TensorIndexType],
-- 
2.43.0


From 5396f7b639ea25ce29154492507395ac39e29a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 25/34] fix: related_models of a model with a single exotic

---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index b3820d7..13bba5c 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -144,8 +144,7 @@ class ModelDataFrame(pd.DataFrame):
             prod = reduce(operator.mul, group)
             indices += list(self[self["democratic_num"] == prod].index)
 
-        indices.remove(index)
-        return self.loc[indices]
+        return self.loc[[i for i in indices if i != index]]
 
 
 class ModelDatabase:
-- 
2.43.0


From cf143f871e1f44e017cc9658a61c43243eebf4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 26/34] fix: json export of graphs, whose edges carry particle
 labels

---
 neutrinomass/database/json_serialiser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/json_serialiser.py b/neutrinomass/database/json_serialiser.py
index 454383a..94a8576 100644
--- a/neutrinomass/database/json_serialiser.py
+++ b/neutrinomass/database/json_serialiser.py
@@ -88,9 +88,11 @@ def export_partition(expr):
 
 
 def export_graph(g: nx.Graph):
-    data = nx.readwrite.json_graph.node_link_data(g)
+    data = nx.readwrite.json_graph.node_link_data(g, edges="links")
     for link in data["links"]:
-        link["particle"] = export_tensor(link["particle"])
+        # edges now carry the field label, older graphs carry the field
+        if isinstance(link["particle"], Field):
+            link["particle"] = export_tensor(link["particle"])
 
     return data
 
-- 
2.43.0


From 42d9ffb12fb0b83b9fb50864fc37a2307b7b1058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 27/34] fix: CKM phase is quoted in radians

---
 neutrinomass/analysis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/analysis/utils.py b/neutrinomass/analysis/utils.py
index a6c7faa..264faf8 100644
--- a/neutrinomass/analysis/utils.py
+++ b/neutrinomass/analysis/utils.py
@@ -122,7 +122,7 @@ PMNS = UnitaryMatrix()
 THETA12_CKM = np.deg2rad(13.04)
 THETA13_CKM = np.deg2rad(0.201)
 THETA23_CKM = np.deg2rad(2.38)
-DELTA_CP_CKM = np.deg2rad(1.20)
+DELTA_CP_CKM = 1.20
 
 CKM = UnitaryMatrix(
     c12=np.cos(THETA12_CKM),
-- 
2.43.0


From 4b5e64f6ba2b7c93b069281c23d8fa7bb33ffce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 28/34] fix: deep copies of indices and indexed fields

---
 neutrinomass/tensormethod/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 8e00278..de63d66 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -228,6 +228,10 @@ class Index(tensor.TensorIndex):
     def _dict(self):
         return {"label": self.label}
 
+    def __deepcopy__(self, memo):
+        # indices are never changed once made
+        return self
+
 
 class Field:
     def __init__(
@@ -825,6 +829,9 @@ class IndexedField(tensor.Tensor, Field):
 
         return self._dict == other._dict
 
+    def __deepcopy__(self, memo):
+        return self.__class__(**deepcopy(self._dict, memo))
+
     def __lt__(self, other):
         """An arbitrary way to order indexed fields."""
         comp_func = lambda x: f"{x.label}{x.dynkin}{x.indices}{x.charges}{x.is_conj}"
-- 
2.43.0


From 9d231450ad16529a169cff18cf34278ee3391484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 29/34] fix: a field stripped of its derivatives does not
 remember them

---
 neutrinomass/tensormethod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index de63d66..f2d8c02 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -876,7 +876,7 @@ class IndexedField(tensor.Tensor, Field):
             "nf": self.nf,
             "derivs": 0,
             "charges": {k: v for k, v in self.charges.items()},
-            "stripped": self.stripped,
+            "stripped": None,
         }
 
         kwargs = {**self.stripped, **other}
-- 
2.43.0


From 02791f3861e80e780c447f5d2dc9e687efb9f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 30/34] fix: index labels of a field do not depend on how its
 indices were given

---
 neutrinomass/tensormethod/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index f2d8c02..023d126 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -671,7 +671,8 @@ class IndexedField(tensor.Tensor, Field):
         )
 
         # self.comm = FERMI if self.is_fermion else BOSE
-        self.index_labels = indices
+        labels = indices.split() if isinstance(indices, str) else indices
+        self.index_labels = " ".join(str(i) for i in labels)
 
     @property
     def field(self):
-- 
2.43.0


From f1610997695024db75b89cad65b4785a6b67b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 31/34] fix: spurious minus signs in the Hilbert series tables

The coefficients count operators; with the stray signs they were negative or
fractional (eb H L^3 has (2 Nf^4 + Nf^2)/3 invariants, not (2 Nf^4 - Nf^2)/3).
---
 neutrinomass/tensormethod/hs.py | 224 ++++++++++++++++----------------
 1 file changed, 112 insertions(+), 112 deletions(-)

diff --git a/neutrinomass/tensormethod/hs.py b/neutrinomass/tensormethod/hs.py
index 93cf638..8f671ce 100644
--- a/neutrinomass/tensormethod/hs.py
+++ b/neutrinomass/tensormethod/hs.py
@@ -107,57 +107,57 @@ H6 = (
     db(X) * dbd(X) * eb(X) * ebd(X),
     eb(X) ** 2 * ebd(X) ** 2,
     H(X) ** 3 * Hd(X) ** 3,
-    -eb(X) * H(X) * Hd(X) ** 2 * L(X),
+    eb(X) * H(X) * Hd(X) ** 2 * L(X),
     ebd(X) * H(X) ** 2 * Hd(X) * Ld(X),
     db(X) * dbd(X) * L(X) * Ld(X),
     eb(X) * ebd(X) * L(X) * Ld(X),
-    -L(X) ** 2 * Ld(X) ** 2,
+    L(X) ** 2 * Ld(X) ** 2,
     db(X) * H(X) * Hd(X) ** 2 * Q(X),
     db(X) * ebd(X) * Ld(X) * Q(X),
     L(X) * Q(X) ** 3,
     dbd(X) * H(X) ** 2 * Hd(X) * Qd(X),
-    -dbd(X) * eb(X) * L(X) * Qd(X),
+    dbd(X) * eb(X) * L(X) * Qd(X),
     2 * db(X) * dbd(X) * Q(X) * Qd(X),
     eb(X) * ebd(X) * Q(X) * Qd(X),
     2 * L(X) * Ld(X) * Q(X) * Qd(X),
-    -2 * Q(X) ** 2 * Qd(X) ** 2,
+    2 * Q(X) ** 2 * Qd(X) ** 2,
     Ld(X) * Qd(X) ** 3,
     3 * D * db(X) * dbd(X) * H(X) * Hd(X),
     3 * D * eb(X) * ebd(X) * H(X) * Hd(X),
-    -6 * D * H(X) * Hd(X) * L(X) * Ld(X),
+    6 * D * H(X) * Hd(X) * L(X) * Ld(X),
     6 * D * H(X) * Hd(X) * Q(X) * Qd(X),
     4 * D ** 2 * H(X) ** 2 * Hd(X) ** 2,
     4 * D ** 2 * eb(X) * Hd(X) * L(X),
-    -4 * D ** 2 * ebd(X) * H(X) * Ld(X),
+    4 * D ** 2 * ebd(X) * H(X) * Ld(X),
     4 * D ** 2 * db(X) * Hd(X) * Q(X),
     4 * D ** 2 * dbd(X) * H(X) * Qd(X),
     D ** 3 * db(X) * dbd(X),
-    -D ** 3 * eb(X) * ebd(X),
+    D ** 3 * eb(X) * ebd(X),
     D ** 3 * L(X) * Ld(X),
     D ** 3 * Q(X) * Qd(X),
     D ** 4 * H(X) * Hd(X),
     H(X) ** 2 * Hd(X) * Q(X) * ub(X),
-    -2 * eb(X) * L(X) * Q(X) * ub(X),
+    2 * eb(X) * L(X) * Q(X) * ub(X),
     2 * db(X) * Q(X) ** 2 * ub(X),
     db(X) * Ld(X) * Qd(X) * ub(X),
     eb(X) * Qd(X) ** 2 * ub(X),
-    -D * dbd(X) * H(X) ** 2 * ub(X),
+    D * dbd(X) * H(X) ** 2 * ub(X),
     4 * D ** 2 * H(X) * Q(X) * ub(X),
     db(X) * eb(X) * ub(X) ** 2,
     dbd(X) * L(X) * Q(X) * ubd(X),
-    -ebd(X) * Q(X) ** 2 * ubd(X),
+    ebd(X) * Q(X) ** 2 * ubd(X),
     H(X) * Hd(X) ** 2 * Qd(X) * ubd(X),
     2 * ebd(X) * Ld(X) * Qd(X) * ubd(X),
     2 * dbd(X) * Qd(X) ** 2 * ubd(X),
-    -D * db(X) * Hd(X) ** 2 * ubd(X),
+    D * db(X) * Hd(X) ** 2 * ubd(X),
     4 * D ** 2 * Hd(X) * Qd(X) * ubd(X),
     2 * db(X) * dbd(X) * ub(X) * ubd(X),
     eb(X) * ebd(X) * ub(X) * ubd(X),
-    -L(X) * Ld(X) * ub(X) * ubd(X),
+    L(X) * Ld(X) * ub(X) * ubd(X),
     2 * Q(X) * Qd(X) * ub(X) * ubd(X),
     3 * D * H(X) * Hd(X) * ub(X) * ubd(X),
     D ** 3 * ub(X) * ubd(X),
-    -dbd(X) * ebd(X) * ubd(X) ** 2,
+    dbd(X) * ebd(X) * ubd(X) ** 2,
     ub(X) ** 2 * ubd(X) ** 2,
 )
 
@@ -166,16 +166,16 @@ H7_LNV = (
     + Nf * D ** 2 * H(X) ** 2 * L(X) ** 2
     + Nf ** 2 * D ** 2 * H(X) ** 2 * L(X) ** 2
     - (Nf * B(X) * H(X) ** 2 * L(X) ** 2) / 2
-    + -(Nf ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
+    + (Nf ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
     + (Nf ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
-    + -(Nf ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
+    + (Nf ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
     + (2 * Nf ** 4 * eb(X) * H(X) * L(X) ** 3) / 3
     + 2 * Nf ** 4 * db(X) * H(X) * L(X) ** 2 * Q(X)
-    + -Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
+    + Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
     + (Nf ** 3 * D * db(X) * L(X) ** 2 * ubd(X)) / 2
     + (Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X)) / 2
-    + -Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
+    + Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
     + Nf ** 2 * H(X) ** 2 * L(X) ** 2 * W(X)
 )
 
@@ -183,123 +183,123 @@ H9_LNV = (
     (Nf * D ** 2 * ebd(X) ** 2 * H(X) ** 4) / 2
     + (Nf ** 2 * D ** 2 * ebd(X) ** 2 * H(X) ** 4) / 2
     + 3 * Nf ** 2 * D ** 3 * ebd(X) * H(X) ** 3 * L(X)
-    + -Nf ** 2 * D * B(X) * ebd(X) * H(X) ** 3 * L(X)
+    + Nf ** 2 * D * B(X) * ebd(X) * H(X) ** 3 * L(X)
     + Nf ** 2 * D * Bb(X) * ebd(X) * H(X) ** 3 * L(X)
     + Nf ** 2 * D * ebd(X) * H(X) ** 4 * Hd(X) * L(X)
-    + -(3 * Nf * D ** 4 * H(X) ** 2 * L(X) ** 2) / 2
+    + (3 * Nf * D ** 4 * H(X) ** 2 * L(X) ** 2) / 2
     + (3 * Nf ** 2 * D ** 4 * H(X) ** 2 * L(X) ** 2) / 2
     - (Nf * D ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
-    + -(7 * Nf ** 2 * D ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
+    + (7 * Nf ** 2 * D ** 2 * B(X) * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf * B(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 2 * B(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
-    - -Nf * D ** 2 * Bb(X) * H(X) ** 2 * L(X) ** 2
+    - Nf * D ** 2 * Bb(X) * H(X) ** 2 * L(X) ** 2
     + 2 * Nf ** 2 * D ** 2 * Bb(X) * H(X) ** 2 * L(X) ** 2
     + (Nf * Bb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
-    + -(Nf ** 2 * Bb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
+    + (Nf ** 2 * Bb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     - (Nf ** 3 * D * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2) / 2
-    + -(5 * Nf ** 4 * D * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2) / 2
+    + (5 * Nf ** 4 * D * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2) / 2
     - (Nf ** 3 * D * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2) / 2
-    + -(5 * Nf ** 4 * D * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2) / 2
+    + (5 * Nf ** 4 * D * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf * G(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 2 * G(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
-    + -(Nf * Gb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
+    + (Nf * Gb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 2 * Gb(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf * D ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
-    + -(11 * Nf ** 2 * D ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
+    + (11 * Nf ** 2 * D ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
     - (Nf * B(X) * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
-    + -(Nf ** 2 * B(X) * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
+    + (Nf ** 2 * B(X) * H(X) ** 3 * Hd(X) * L(X) ** 2) / 2
     + (Nf * H(X) ** 4 * Hd(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 2 * H(X) ** 4 * Hd(X) ** 2 * L(X) ** 2) / 2
-    - -(Nf ** 2 * D ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
+    - (Nf ** 2 * D ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
     + (10 * Nf ** 4 * D ** 2 * eb(X) * H(X) * L(X) ** 3) / 3
     + Nf ** 4 * B(X) * eb(X) * H(X) * L(X) ** 3
-    + -Nf ** 4 * eb(X) * H(X) ** 2 * Hd(X) * L(X) ** 3
+    + Nf ** 4 * eb(X) * H(X) ** 2 * Hd(X) * L(X) ** 3
     + (13 * Nf ** 3 * eb(X) ** 2 * L(X) ** 4) / 24
     + (7 * Nf ** 4 * eb(X) ** 2 * L(X) ** 4) / 24
-    - -(Nf ** 5 * eb(X) ** 2 * L(X) ** 4) / 24
+    - (Nf ** 5 * eb(X) ** 2 * L(X) ** 4) / 24
     + (5 * Nf ** 6 * eb(X) ** 2 * L(X) ** 4) / 24
     + (Nf ** 3 * ebd(X) * H(X) ** 3 * L(X) ** 2 * Ld(X)) / 2
-    + -(Nf ** 4 * ebd(X) * H(X) ** 3 * L(X) ** 2 * Ld(X)) / 2
+    + (Nf ** 4 * ebd(X) * H(X) ** 3 * L(X) ** 2 * Ld(X)) / 2
     + (Nf ** 2 * D * H(X) ** 2 * L(X) ** 3 * Ld(X)) / 3
     - (Nf ** 3 * D * H(X) ** 2 * L(X) ** 3 * Ld(X)) / 2
-    + -(13 * Nf ** 4 * D * H(X) ** 2 * L(X) ** 3 * Ld(X)) / 6
+    + (13 * Nf ** 4 * D * H(X) ** 2 * L(X) ** 3 * Ld(X)) / 6
     + 5 * Nf ** 4 * D * db(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X)
-    + -10 * Nf ** 4 * D ** 2 * db(X) * H(X) * L(X) ** 2 * Q(X)
+    + 10 * Nf ** 4 * D ** 2 * db(X) * H(X) * L(X) ** 2 * Q(X)
     + 3 * Nf ** 4 * B(X) * db(X) * H(X) * L(X) ** 2 * Q(X)
     + 3 * Nf ** 4 * db(X) * G(X) * H(X) * L(X) ** 2 * Q(X)
-    + -3 * Nf ** 4 * db(X) * H(X) ** 2 * Hd(X) * L(X) ** 2 * Q(X)
+    + 3 * Nf ** 4 * db(X) * H(X) ** 2 * Hd(X) * L(X) ** 2 * Q(X)
     + (Nf ** 4 * db(X) * eb(X) * L(X) ** 3 * Q(X)) / 3
-    + -(5 * Nf ** 6 * db(X) * eb(X) * L(X) ** 3 * Q(X)) / 3
+    + (5 * Nf ** 6 * db(X) * eb(X) * L(X) ** 3 * Q(X)) / 3
     + (3 * Nf ** 3 * db(X) ** 2 * L(X) ** 2 * Q(X) ** 2) / 2
-    + -(5 * Nf ** 6 * db(X) ** 2 * L(X) ** 2 * Q(X) ** 2) / 2
+    + (5 * Nf ** 6 * db(X) ** 2 * L(X) ** 2 * Q(X) ** 2) / 2
     + (Nf ** 3 * dbd(X) * H(X) ** 3 * L(X) ** 2 * Qd(X)) / 2
-    + -(Nf ** 4 * dbd(X) * H(X) ** 3 * L(X) ** 2 * Qd(X)) / 2
+    + (Nf ** 4 * dbd(X) * H(X) ** 3 * L(X) ** 2 * Qd(X)) / 2
     + Nf ** 4 * ebd(X) * H(X) ** 3 * L(X) * Q(X) * Qd(X)
-    - -(Nf ** 3 * D * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)) / 2
+    - (Nf ** 3 * D * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)) / 2
     + (13 * Nf ** 4 * D * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)) / 2
-    + -Nf ** 4 * H(X) ** 3 * L(X) ** 2 * Q(X) * ub(X)
+    + Nf ** 4 * H(X) ** 3 * L(X) ** 2 * Q(X) * ub(X)
     + Nf ** 4 * D * db(X) * ebd(X) ** 2 * H(X) ** 2 * ubd(X)
-    + -7 * Nf ** 4 * D ** 2 * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
+    + 7 * Nf ** 4 * D ** 2 * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
     + Nf ** 4 * B(X) * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
-    + -Nf ** 4 * Bb(X) * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
+    + Nf ** 4 * Bb(X) * db(X) * ebd(X) * H(X) * L(X) * ubd(X)
     + Nf ** 4 * db(X) * ebd(X) * G(X) * H(X) * L(X) * ubd(X)
-    + -Nf ** 4 * db(X) * ebd(X) * Gb(X) * H(X) * L(X) * ubd(X)
+    + Nf ** 4 * db(X) * ebd(X) * Gb(X) * H(X) * L(X) * ubd(X)
     + Nf ** 4 * db(X) * ebd(X) * H(X) ** 2 * Hd(X) * L(X) * ubd(X)
-    + -Nf ** 4 * D ** 3 * db(X) * L(X) ** 2 * ubd(X)
+    + Nf ** 4 * D ** 3 * db(X) * L(X) ** 2 * ubd(X)
     + 2 * Nf ** 4 * D * B(X) * db(X) * L(X) ** 2 * ubd(X)
     + (Nf ** 3 * D * Bb(X) * db(X) * L(X) ** 2 * ubd(X)) / 2
-    + -(3 * Nf ** 4 * D * Bb(X) * db(X) * L(X) ** 2 * ubd(X)) / 2
+    + (3 * Nf ** 4 * D * Bb(X) * db(X) * L(X) ** 2 * ubd(X)) / 2
     + Nf ** 6 * db(X) ** 2 * dbd(X) * L(X) ** 2 * ubd(X)
-    + -Nf ** 6 * db(X) * eb(X) * ebd(X) * L(X) ** 2 * ubd(X)
+    + Nf ** 6 * db(X) * eb(X) * ebd(X) * L(X) ** 2 * ubd(X)
     + 2 * Nf ** 4 * D * db(X) * G(X) * L(X) ** 2 * ubd(X)
-    + -(Nf ** 3 * D * db(X) * Gb(X) * L(X) ** 2 * ubd(X)) / 2
+    + (Nf ** 3 * D * db(X) * Gb(X) * L(X) ** 2 * ubd(X)) / 2
     + (3 * Nf ** 4 * D * db(X) * Gb(X) * L(X) ** 2 * ubd(X)) / 2
-    + -5 * Nf ** 4 * D * db(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
+    + 5 * Nf ** 4 * D * db(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
     + (Nf ** 4 * db(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
-    + -(2 * Nf ** 6 * db(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
+    + (2 * Nf ** 6 * db(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
     + 2 * Nf ** 6 * db(X) ** 2 * ebd(X) * L(X) * Q(X) * ubd(X)
-    + -5 * Nf ** 4 * D * ebd(X) * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
+    + 5 * Nf ** 4 * D * ebd(X) * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
     + 7 * Nf ** 4 * D ** 2 * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
-    + -Nf ** 4 * B(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
+    + Nf ** 4 * B(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
     + Nf ** 4 * Bb(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
     + Nf ** 4 * G(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
-    + -Nf ** 4 * Gb(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
+    + Nf ** 4 * Gb(X) * H(X) * L(X) ** 2 * Qd(X) * ubd(X)
     + (Nf ** 3 * H(X) ** 2 * Hd(X) * L(X) ** 2 * Qd(X) * ubd(X)) / 2
-    + -(3 * Nf ** 4 * H(X) ** 2 * Hd(X) * L(X) ** 2 * Qd(X) * ubd(X)) / 2
+    + (3 * Nf ** 4 * H(X) ** 2 * Hd(X) * L(X) ** 2 * Qd(X) * ubd(X)) / 2
     + (Nf ** 4 * eb(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
-    + -(2 * Nf ** 6 * eb(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
+    + (2 * Nf ** 6 * eb(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
     + 4 * Nf ** 6 * db(X) * L(X) ** 2 * Q(X) * Qd(X) * ubd(X)
-    - -(Nf ** 3 * D * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)) / 2
+    - (Nf ** 3 * D * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)) / 2
     + (5 * Nf ** 4 * D * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)) / 2
-    + -(Nf ** 3 * db(X) ** 2 * ebd(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 3 * db(X) ** 2 * ebd(X) ** 2 * ubd(X) ** 2) / 2
     + (Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * ubd(X) ** 2) / 2
-    + -2 * Nf ** 6 * db(X) * ebd(X) * L(X) * Qd(X) * ubd(X) ** 2
+    + 2 * Nf ** 6 * db(X) * ebd(X) * L(X) * Qd(X) * ubd(X) ** 2
     + Nf ** 3 * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2
     + Nf ** 6 * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2
-    + -Nf ** 6 * db(X) * L(X) ** 2 * ub(X) * ubd(X) ** 2
+    + Nf ** 6 * db(X) * L(X) ** 2 * ub(X) * ubd(X) ** 2
     + 2 * Nf ** 2 * D * ebd(X) * H(X) ** 3 * L(X) * W(X)
     + 5 * Nf ** 2 * D ** 2 * H(X) ** 2 * L(X) ** 2 * W(X)
-    + -2 * Nf ** 2 * B(X) * H(X) ** 2 * L(X) ** 2 * W(X)
+    + 2 * Nf ** 2 * B(X) * H(X) ** 2 * L(X) ** 2 * W(X)
     - (Nf * H(X) ** 3 * Hd(X) * L(X) ** 2 * W(X)) / 2
     + (3 * Nf ** 2 * H(X) ** 3 * Hd(X) * L(X) ** 2 * W(X)) / 2
-    - -(Nf ** 3 * eb(X) * H(X) * L(X) ** 3 * W(X)) / 2
+    - (Nf ** 3 * eb(X) * H(X) * L(X) ** 3 * W(X)) / 2
     + (3 * Nf ** 4 * eb(X) * H(X) * L(X) ** 3 * W(X)) / 2
     - (Nf ** 3 * db(X) * H(X) * L(X) ** 2 * Q(X) * W(X)) / 2
-    + -(9 * Nf ** 4 * db(X) * H(X) * L(X) ** 2 * Q(X) * W(X)) / 2
+    + (9 * Nf ** 4 * db(X) * H(X) * L(X) ** 2 * Q(X) * W(X)) / 2
     + Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X) * W(X)
-    + -2 * Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X) * W(X)
+    + 2 * Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X) * W(X)
     - (Nf ** 3 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * W(X)) / 2
-    + -(3 * Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * W(X)) / 2
+    + (3 * Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * W(X)) / 2
     + Nf * H(X) ** 2 * L(X) ** 2 * W(X) ** 2
     + 2 * Nf ** 2 * H(X) ** 2 * L(X) ** 2 * W(X) ** 2
-    + -2 * Nf ** 2 * D * ebd(X) * H(X) ** 3 * L(X) * Wb(X)
+    + 2 * Nf ** 2 * D * ebd(X) * H(X) ** 3 * L(X) * Wb(X)
     + 3 * Nf ** 2 * D ** 2 * H(X) ** 2 * L(X) ** 2 * Wb(X)
     + Nf ** 2 * Bb(X) * H(X) ** 2 * L(X) ** 2 * Wb(X)
-    + -Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X) * Wb(X)
+    + Nf ** 4 * db(X) * ebd(X) * H(X) * L(X) * ubd(X) * Wb(X)
     - (Nf ** 3 * D * db(X) * L(X) ** 2 * ubd(X) * Wb(X)) / 2
-    + -(3 * Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X) * Wb(X)) / 2
+    + (3 * Nf ** 4 * D * db(X) * L(X) ** 2 * ubd(X) * Wb(X)) / 2
     + (Nf ** 3 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * Wb(X)) / 2
-    + -(3 * Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * Wb(X)) / 2
+    + (3 * Nf ** 4 * H(X) * L(X) ** 2 * Qd(X) * ubd(X) * Wb(X)) / 2
     + Nf * H(X) ** 2 * L(X) ** 2 * Wb(X) ** 2
     + Nf ** 2 * H(X) ** 2 * L(X) ** 2 * Wb(X) ** 2
 )
@@ -308,98 +308,98 @@ H9_LNV = (
 H11_LNV = (
     (Nf ** 3 * db(X) ** 2 * dbd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
     + (Nf ** 6 * db(X) ** 2 * dbd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 2
-    + -Nf ** 6 * db(X) * dbd(X) * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2
+    + Nf ** 6 * db(X) * dbd(X) * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2
     + (Nf ** 3 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
-    + -(Nf ** 4 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
+    + (Nf ** 4 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
     + (Nf ** 5 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
-    + -(Nf ** 6 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
+    + (Nf ** 6 * eb(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * L(X) ** 2) / 4
     + (Nf * H(X) ** 5 * Hd(X) ** 3 * L(X) ** 2) / 2
-    + -(Nf ** 2 * H(X) ** 5 * Hd(X) ** 3 * L(X) ** 2) / 2
+    + (Nf ** 2 * H(X) ** 5 * Hd(X) ** 3 * L(X) ** 2) / 2
     + Nf ** 4 * eb(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 3
     + (Nf ** 2 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 8
-    + -(11 * Nf ** 3 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
+    + (11 * Nf ** 3 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
     + (17 * Nf ** 4 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
-    - -(11 * Nf ** 5 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
+    - (11 * Nf ** 5 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
     + (25 * Nf ** 6 * eb(X) ** 2 * H(X) * Hd(X) * L(X) ** 4) / 48
-    + -(Nf ** 3 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Ld(X)) / 2
+    + (Nf ** 3 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Ld(X)) / 2
     + (Nf ** 4 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Ld(X)) / 2
-    + -Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 3 * Ld(X)
+    + Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 3 * Ld(X)
     + Nf ** 6 * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 3 * Ld(X)
-    + -(3 * Nf ** 3 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
+    + (3 * Nf ** 3 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
     + (Nf ** 4 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
     + (Nf ** 5 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
-    + -(3 * Nf ** 6 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
+    + (3 * Nf ** 6 * H(X) ** 2 * L(X) ** 4 * Ld(X) ** 2) / 8
     + 2 * Nf ** 6 * db(X) ** 2 * dbd(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X)
-    + -Nf ** 5 * db(X) * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Q(X)
+    + Nf ** 5 * db(X) * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Q(X)
     + Nf ** 6 * db(X) * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Q(X)
-    + -3 * Nf ** 4 * db(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Q(X)
+    + 3 * Nf ** 4 * db(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Q(X)
     + (Nf ** 4 * db(X) * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Q(X)) / 3
-    - -(Nf ** 5 * db(X) * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Q(X)) / 2
+    - (Nf ** 5 * db(X) * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Q(X)) / 2
     + (25 * Nf ** 6 * db(X) * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Q(X)) / 6
-    + -3 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Q(X)
+    + 3 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Q(X)
     + (Nf ** 3 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
-    + -(Nf ** 4 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
+    + (Nf ** 4 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
     + (Nf ** 5 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
-    + -(Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
+    + (Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * H(X) ** 2 * Q(X) ** 2) / 2
     + (3 * Nf ** 3 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
-    + -(Nf ** 4 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
+    + (Nf ** 4 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
     - (Nf ** 5 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
-    + -(25 * Nf ** 6 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
+    + (25 * Nf ** 6 * db(X) ** 2 * H(X) * Hd(X) * L(X) ** 2 * Q(X) ** 2) / 4
     + (Nf ** 3 * dbd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Qd(X)) / 2
-    + -(Nf ** 4 * dbd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Qd(X)) / 2
+    + (Nf ** 4 * dbd(X) * H(X) ** 4 * Hd(X) * L(X) ** 2 * Qd(X)) / 2
     + Nf ** 6 * dbd(X) * eb(X) * H(X) ** 2 * L(X) ** 3 * Qd(X)
-    + -Nf ** 4 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) * Q(X) * Qd(X)
+    + Nf ** 4 * ebd(X) * H(X) ** 4 * Hd(X) * L(X) * Q(X) * Qd(X)
     + 6 * Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)
-    + -3 * Nf ** 6 * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)
+    + 3 * Nf ** 6 * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X)
     + 3 * Nf ** 6 * H(X) ** 2 * L(X) ** 3 * Ld(X) * Q(X) * Qd(X)
-    + -6 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X) ** 2 * Qd(X)
+    + 6 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X) ** 2 * Qd(X)
     + (3 * Nf ** 3 * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * Qd(X) ** 2) / 2
-    + -(9 * Nf ** 6 * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * Qd(X) ** 2) / 2
+    + (9 * Nf ** 6 * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * Qd(X) ** 2) / 2
     + Nf ** 4 * H(X) ** 4 * Hd(X) * L(X) ** 2 * Q(X) * ub(X)
-    - -(Nf ** 5 * eb(X) * H(X) ** 2 * L(X) ** 3 * Q(X) * ub(X)) / 2
+    - (Nf ** 5 * eb(X) * H(X) ** 2 * L(X) ** 3 * Q(X) * ub(X)) / 2
     + (5 * Nf ** 6 * eb(X) * H(X) ** 2 * L(X) ** 3 * Q(X) * ub(X)) / 2
-    - -(Nf ** 5 * db(X) * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * ub(X)) / 2
+    - (Nf ** 5 * db(X) * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * ub(X)) / 2
     + (15 * Nf ** 6 * db(X) * H(X) ** 2 * L(X) ** 2 * Q(X) ** 2 * ub(X)) / 2
-    + -Nf ** 4 * db(X) * ebd(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) * ubd(X)
+    + Nf ** 4 * db(X) * ebd(X) * H(X) ** 3 * Hd(X) ** 2 * L(X) * ubd(X)
     + 2 * Nf ** 6 * db(X) ** 2 * dbd(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
-    + -2 * Nf ** 6 * db(X) * eb(X) * ebd(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
+    + 2 * Nf ** 6 * db(X) * eb(X) * ebd(X) * H(X) * Hd(X) * L(X) ** 2 * ubd(X)
     + Nf ** 6 * db(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Ld(X) * ubd(X)
-    + -(Nf ** 4 * db(X) * H(X) * Hd(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
+    + (Nf ** 4 * db(X) * H(X) * Hd(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
     + (5 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 3 * Ld(X) * ubd(X)) / 3
-    + -4 * Nf ** 6 * db(X) ** 2 * ebd(X) * H(X) * Hd(X) * L(X) * Q(X) * ubd(X)
+    + 4 * Nf ** 6 * db(X) ** 2 * ebd(X) * H(X) * Hd(X) * L(X) * Q(X) * ubd(X)
     + 4 * Nf ** 6 * db(X) * dbd(X) * ebd(X) * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
-    + -Nf ** 6 * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
+    + Nf ** 6 * eb(X) * ebd(X) ** 2 * H(X) ** 2 * L(X) * Qd(X) * ubd(X)
     + (Nf ** 3 * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Qd(X) * ubd(X)) / 2
-    + -(3 * Nf ** 4 * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Qd(X) * ubd(X)) / 2
+    + (3 * Nf ** 4 * H(X) ** 3 * Hd(X) ** 2 * L(X) ** 2 * Qd(X) * ubd(X)) / 2
     + (Nf ** 4 * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
-    + -(5 * Nf ** 6 * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
+    + (5 * Nf ** 6 * eb(X) * H(X) * Hd(X) * L(X) ** 3 * Qd(X) * ubd(X)) / 3
     + Nf ** 5 * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Qd(X) * ubd(X)
-    + -3 * Nf ** 6 * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Qd(X) * ubd(X)
+    + 3 * Nf ** 6 * ebd(X) * H(X) ** 2 * L(X) ** 2 * Ld(X) * Qd(X) * ubd(X)
     + 2 * Nf ** 6 * db(X) * ebd(X) ** 2 * H(X) ** 2 * Q(X) * Qd(X) * ubd(X)
-    + -10 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 2 * Q(X) * Qd(X) * ubd(X)
+    + 10 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 2 * Q(X) * Qd(X) * ubd(X)
     + Nf ** 5 * dbd(X) * H(X) ** 2 * L(X) ** 2 * Qd(X) ** 2 * ubd(X)
-    + -3 * Nf ** 6 * dbd(X) * H(X) ** 2 * L(X) ** 2 * Qd(X) ** 2 * ubd(X)
+    + 3 * Nf ** 6 * dbd(X) * H(X) ** 2 * L(X) ** 2 * Qd(X) ** 2 * ubd(X)
     + 6 * Nf ** 6 * ebd(X) * H(X) ** 2 * L(X) * Q(X) * Qd(X) ** 2 * ubd(X)
-    + -2 * Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)
+    + 2 * Nf ** 6 * db(X) * dbd(X) * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)
     + Nf ** 6 * eb(X) * ebd(X) * H(X) ** 2 * L(X) ** 2 * ub(X) * ubd(X)
-    + -Nf ** 6 * H(X) ** 2 * L(X) ** 3 * Ld(X) * ub(X) * ubd(X)
+    + Nf ** 6 * H(X) ** 2 * L(X) ** 3 * Ld(X) * ub(X) * ubd(X)
     + 4 * Nf ** 6 * db(X) * ebd(X) * H(X) ** 2 * L(X) * Q(X) * ub(X) * ubd(X)
-    + -6 * Nf ** 6 * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X) * ub(X) * ubd(X)
+    + 6 * Nf ** 6 * H(X) ** 2 * L(X) ** 2 * Q(X) * Qd(X) * ub(X) * ubd(X)
     + (Nf ** 3 * db(X) ** 2 * ebd(X) ** 2 * H(X) * Hd(X) * ubd(X) ** 2) / 2
-    + -(Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * H(X) * Hd(X) * ubd(X) ** 2) / 2
+    + (Nf ** 6 * db(X) ** 2 * ebd(X) ** 2 * H(X) * Hd(X) * ubd(X) ** 2) / 2
     + (Nf ** 3 * db(X) ** 2 * Hd(X) ** 2 * L(X) ** 2 * ubd(X) ** 2) / 2
-    + -(Nf ** 6 * db(X) ** 2 * Hd(X) ** 2 * L(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 6 * db(X) ** 2 * Hd(X) ** 2 * L(X) ** 2 * ubd(X) ** 2) / 2
     + 4 * Nf ** 6 * db(X) * ebd(X) * H(X) * Hd(X) * L(X) * Qd(X) * ubd(X) ** 2
-    + -(3 * Nf ** 3 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
+    + (3 * Nf ** 3 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
     + (Nf ** 4 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
-    - -(Nf ** 5 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
+    - (Nf ** 5 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
     + (5 * Nf ** 6 * ebd(X) ** 2 * H(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 4
-    + -(Nf ** 3 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 3 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
     + (Nf ** 4 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
-    + -(Nf ** 5 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 5 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
     + (5 * Nf ** 6 * H(X) * Hd(X) * L(X) ** 2 * Qd(X) ** 2 * ubd(X) ** 2) / 2
-    + -2 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 2 * ub(X) * ubd(X) ** 2
+    + 2 * Nf ** 6 * db(X) * H(X) * Hd(X) * L(X) ** 2 * ub(X) * ubd(X) ** 2
     + 2 * Nf ** 6 * ebd(X) * H(X) ** 2 * L(X) * Qd(X) * ub(X) * ubd(X) ** 2
-    + -(Nf ** 3 * H(X) ** 2 * L(X) ** 2 * ub(X) ** 2 * ubd(X) ** 2) / 2
+    + (Nf ** 3 * H(X) ** 2 * L(X) ** 2 * ub(X) ** 2 * ubd(X) ** 2) / 2
     + (Nf ** 6 * H(X) ** 2 * L(X) ** 2 * ub(X) ** 2 * ubd(X) ** 2) / 2
 )
-- 
2.43.0


From 3c3dc3c89c4bfc05feab44fa0a1594b55822a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 32/34] fix: coloured rows of the one-loop tables couple equal
 colours

Hypercharge flows the same way round the loop in every row, so the fields of a
vertex carry equal colours; with alternating colours no coloured row was
gauge invariant and coloured one-loop models were never filtered.
---
 neutrinomass/database/heavyloops.py | 56 ++++++++++++++---------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/neutrinomass/database/heavyloops.py b/neutrinomass/database/heavyloops.py
index 86bc252..0931f75 100644
--- a/neutrinomass/database/heavyloops.py
+++ b/neutrinomass/database/heavyloops.py
@@ -55,27 +55,27 @@ def tbl_2_1(i: list, a: Rational):
         ),
         (
             f"S,10,{i[0]-1},{a}",
-            f"S,01,{i[1]-1},{a-Rational(1,2)}",
+            f"S,10,{i[1]-1},{a-Rational(1,2)}",
             f"F,10,{i[2]-1},{a}",
-            f"S,01,{i[3]-1},{Rational(1,2) + a}",
+            f"S,10,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,01,{i[0]-1},{a}",
-            f"S,10,{i[1]-1},{a-Rational(1,2)}",
+            f"S,01,{i[1]-1},{a-Rational(1,2)}",
             f"F,01,{i[2]-1},{a}",
-            f"S,10,{i[3]-1},{Rational(1,2) + a}",
+            f"S,01,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,02,{i[0]-1},{a}",
-            f"S,20,{i[1]-1},{a-Rational(1,2)}",
+            f"S,02,{i[1]-1},{a-Rational(1,2)}",
             f"F,02,{i[2]-1},{a}",
-            f"S,20,{i[3]-1},{Rational(1,2) + a}",
+            f"S,02,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,20,{i[0]-1},{a}",
-            f"S,02,{i[1]-1},{a-Rational(1,2)}",
+            f"S,20,{i[1]-1},{a-Rational(1,2)}",
             f"F,20,{i[2]-1},{a}",
-            f"S,02,{i[3]-1},{Rational(1,2) + a}",
+            f"S,20,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,11,{i[0]-1},{a}",
@@ -96,27 +96,27 @@ def tbl_2_2(i: list, a: Rational):
         ),
         (
             f"F,10,{i[0]-1},{a}",
-            f"S,01,{i[1]-1},{a+Rational(1,2)}",
+            f"S,10,{i[1]-1},{a+Rational(1,2)}",
             f"S,10,{i[2]-1},{a}",
-            f"F,01,{i[3]-1},{Rational(1,2) + a}",
+            f"F,10,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,01,{i[0]-1},{a}",
-            f"S,10,{i[1]-1},{a+Rational(1,2)}",
+            f"S,01,{i[1]-1},{a+Rational(1,2)}",
             f"S,01,{i[2]-1},{a}",
-            f"F,10,{i[3]-1},{Rational(1,2) + a}",
+            f"F,01,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,02,{i[0]-1},{a}",
-            f"S,20,{i[1]-1},{a+Rational(1,2)}",
+            f"S,02,{i[1]-1},{a+Rational(1,2)}",
             f"S,02,{i[2]-1},{a}",
-            f"F,20,{i[3]-1},{Rational(1,2) + a}",
+            f"F,02,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,20,{i[0]-1},{a}",
-            f"S,02,{i[1]-1},{a+Rational(1,2)}",
+            f"S,20,{i[1]-1},{a+Rational(1,2)}",
             f"S,20,{i[2]-1},{a}",
-            f"F,02,{i[3]-1},{Rational(1,2) + a}",
+            f"F,20,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,11,{i[0]-1},{a}",
@@ -137,27 +137,27 @@ def tbl_2_3(i: list, a: Rational):
         ),
         (
             f"F,10,{i[0]-1},{a}",
-            f"F,01,{i[1]-1},{a+Rational(1,2)}",
+            f"F,10,{i[1]-1},{a+Rational(1,2)}",
             f"S,10,{i[2]-1},{a}",
-            f"F,01,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,10,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,01,{i[0]-1},{a}",
-            f"F,10,{i[1]-1},{a+Rational(1,2)}",
+            f"F,01,{i[1]-1},{a+Rational(1,2)}",
             f"S,01,{i[2]-1},{a}",
-            f"F,10,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,01,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,02,{i[0]-1},{a}",
-            f"F,20,{i[1]-1},{a+Rational(1,2)}",
+            f"F,02,{i[1]-1},{a+Rational(1,2)}",
             f"S,02,{i[2]-1},{a}",
-            f"F,20,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,02,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,20,{i[0]-1},{a}",
-            f"F,02,{i[1]-1},{a+Rational(1,2)}",
+            f"F,20,{i[1]-1},{a+Rational(1,2)}",
             f"S,20,{i[2]-1},{a}",
-            f"F,02,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,20,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,11,{i[0]-1},{a}",
@@ -178,22 +178,22 @@ def tbl_3_1(i: list, a: Rational):
         (
             f"S,10,{i[0]-1},{a}",
             f"S,10,{i[1]-1},{1+a}",
-            f"F,01,{i[2]-1},{Rational(1,2) + a}",
+            f"F,10,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,01,{i[0]-1},{a}",
             f"S,01,{i[1]-1},{1+a}",
-            f"F,10,{i[2]-1},{Rational(1,2) + a}",
+            f"F,01,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,02,{i[0]-1},{a}",
             f"S,02,{i[1]-1},{1+a}",
-            f"F,20,{i[2]-1},{Rational(1,2) + a}",
+            f"F,02,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,20,{i[0]-1},{a}",
             f"S,20,{i[1]-1},{1+a}",
-            f"F,02,{i[2]-1},{Rational(1,2) + a}",
+            f"F,20,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,11,{i[0]-1},{a}",
-- 
2.43.0


From caacea4e093916f05e8afc25f20325095f942f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 33/34] fix: contract the SU(2) indices of the operators 32e
 and 32f in the LaTeX table

---
 neutrinomass/database/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/operators.py b/neutrinomass/database/operators.py
index 49e4de2..3dd5a45 100644
--- a/neutrinomass/database/operators.py
+++ b/neutrinomass/database/operators.py
@@ -245,8 +245,8 @@ def print_paper_table():
     operator_latex[
         "32d"
     ] = r"$\mathcal{O}_{4b} \cdot \tilde{Q}^i \bar{u}^\dagger \tilde{H}^j \cdot \epsilon_{ij}$"
-    operator_latex["32e"] = r"$\mathcal{O}_{12a} \cdot H^i \tilde{H}^j$"
-    operator_latex["32f"] = r"$\mathcal{O}_{12b} \cdot H^i \tilde{H}^j$"
+    operator_latex["32e"] = r"$\mathcal{O}_{12a} \cdot H^i \tilde{H}^j \cdot \epsilon_{ij}$"
+    operator_latex["32f"] = r"$\mathcal{O}_{12b} \cdot H^i \tilde{H}^j \cdot \epsilon_{ij}$"
     operator_latex[
         "33"
     ] = r"$\mathcal{O}_1 \cdot \bar{e} \bar{e} \bar{e}^{\dagger} \bar{e}^{\dagger}$"
-- 
2.43.0


From ba7f7cffe09cb522af26cd536e0dd98b185e5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 34/34] fix: sum the charges of contracted fields by key

---
 neutrinomass/completions/completions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 18c3920..b2c83bb 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -483,11 +483,9 @@ def exotic_field_and_term(
     for pair in rst:
         assert len(pair) == len(fst)
 
-    for n_pairs in zip(*pairs):
-        # fish out key
-        (k, _), *rst = n_pairs
-        # sum over values
-        exotic_charges[k] = sum(map(lambda x: x[1], n_pairs))
+    # sum by key: the order of the charges may differ between fields
+    for k, _ in fst:
+        exotic_charges[k] = sum(f.charges[k] for f in fields)
 
     indices_by_type = op.indices_by_type.values()
     exotic_undotted, exotic_dotted, exotic_colour, exotic_isospin, _ = map(
-- 
2.43.0

