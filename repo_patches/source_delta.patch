From 1481ab69280ced74b964166722f06dd2cbaab63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:14 +0000
Subject: [PATCH 01/11] fix: Curve equality compares contents

The expression was parsed as a (always truthy) 3-tuple, so any two curves were equal.
---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 15af449..4a41feb 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -529,7 +529,7 @@ class Curve(FuzzyCurve):
     """
 
     def __eq__(self, other):
-        return self.patterns, self.pnum == other.patterns, other.pnum
+        return (self.patterns, self.pnum) == (other.patterns, other.pnum)
 
     def __hash__(self):
         return hash((self.patterns, self.pnum))
-- 
2.43.0


From 8fd29d11ff422df16ca91cbebd50cb2f7e4bbd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:14 +0000
Subject: [PATCH 02/11] fix: zeroth power of a base map is the identity

It recursed forever before.
---
 peano/base_maps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 2351e96..0e5326a 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -154,6 +154,8 @@ class BaseMap:
     def __pow__(self, power: int) -> BaseMap:
         if power < 0:
             return self.get_inverse()**(-power)
+        elif power == 0:
+            return BaseMap.id_map(self.dim)
         elif power == 1:
             return self
         elif power % 2 == 0:
-- 
2.43.0


From 53b44d1c5a5631335260dad38ad9c208b30ba0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:14 +0000
Subject: [PATCH 03/11] fix: derive junctions in fifo order so that depths are
 minimal

The list was used as a stack, which gave too large junction depths for some curves.
---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 4a41feb..554d407 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -420,7 +420,7 @@ class FuzzyCurve:
 
         while to_derive:
             # to_derive is a queue (fifo), this guarantees that depths are correct
-            junc = to_derive.pop()
+            junc = to_derive.pop(0)
             dj = self._get_derived_junction(junc)
             if dj not in seen:
                 yield dj
-- 
2.43.0


From 05f1f27bdf8ee9abcf86bd9ad17cdbd3c6075b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:42 +0000
Subject: [PATCH 04/11] fix: search reports NOT FOUND when the upper bound is
 too strong

The estimator returns None in that case and the script crashed with AttributeError.
---
 search.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/search.py b/search.py
index b002e46..fb22f11 100755
--- a/search.py
+++ b/search.py
@@ -76,15 +76,14 @@ def run_search(
             upper_bound=upper_bound,
             **estimate_kwargs
         )
-        result.update(estimator.get_info())
-        result['gates_count'] = len(gate_list)
-        curves = result.pop('curves')
-
         print('======')
         print('GENERATOR:', gen_id)
-        if not result:
+        if result is None:
             print('NOT FOUND!')
         else:
+            result.update(estimator.get_info())
+            result['gates_count'] = len(gate_list)
+            curves = result.pop('curves')
             pprint.pprint(result)
             print('lower bound (float):', float(result['lo']))
             print('upper bound (float):', float(result['up']))
-- 
2.43.0


From a924f745305c3dc8bfbc08e1fb7dfda525dc6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:42 +0000
Subject: [PATCH 05/11] fix: get_curve_example returns a Curve instance, as
 documented

---
 peano/curves.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peano/curves.py b/peano/curves.py
index 554d407..63f9757 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -196,8 +196,7 @@ class FuzzyCurve:
     def gen_allowed_specs(self, pnum, cnum):
         raise NotImplementedError("Define in child class")
 
-    # TODO: return Curve
-    def get_curve_example(self) -> Self:
+    def get_curve_example(self) -> Curve:
         """
         Generate a curve, compatible with self.
 
@@ -211,7 +210,8 @@ class FuzzyCurve:
             for cnum, spec in enumerate(pattern.specs):
                 if spec is None:
                     spec_dict[pnum][cnum] = next(self.gen_allowed_specs(pnum=pnum, cnum=cnum))
-        return self._specify_allowed(spec_dict)
+        example = self._specify_allowed(spec_dict)
+        return Curve(dim=self.dim, div=self.div, patterns=example.patterns, pnum=self.pnum)
 
     def gen_possible_curves(self) -> Iterable[Curve]:
         """Generate all curves, compatible with self."""
-- 
2.43.0


From 3893cd21a27eb48f65a371382ffbde67a51b8117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:43 +0000
Subject: [PATCH 06/11] fix: Path.is_continuous works for facet links

It used Subset.transform, which only points implement, and raised NotImplementedError.
---
 peano/paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peano/paths.py b/peano/paths.py
index 30969a1..40adf3c 100644
--- a/peano/paths.py
+++ b/peano/paths.py
@@ -152,8 +152,8 @@ class Path[ST: Subset]:
         prev_link = self.links[0]
         for cube, link in zip(self.proto[1:], self.links[1:]):
             # check prev_link.exit ~~ link.entrance
-            shift = [cj - pj for cj, pj in zip(cube, prev_cube)]
-            if not prev_link.exit.intersects(link.entrance.transform(shift=shift)):
+            shift = tuple(cj - pj for cj, pj in zip(cube, prev_cube))
+            if not any(delta == shift and subset.intersects(link.entrance) for delta, subset in prev_link.exit.gen_neighbours()):
                 return False
             prev_cube, prev_link = cube, link
         return True
-- 
2.43.0


From 5453817de52ee55c4a013a15c7e6f55ad42fd126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:43 +0000
Subject: [PATCH 07/11] fix: YE-proof.py takes the curve from the zoo

It imported a module that does not exist any more.
---
 YE-proof.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/YE-proof.py b/YE-proof.py
index 8170524..1dedf37 100644
--- a/YE-proof.py
+++ b/YE-proof.py
@@ -7,7 +7,7 @@ from peano.base_maps import BaseMap
 from peano.paths import PathsGenerator
 from peano.curves import PathFuzzyCurve
 from peano.dilation import Estimator
-from tests.examples import get_ye_curve
+from peano.zoo import get_ye_curve
 
 from search import run_search
 
@@ -18,7 +18,7 @@ MEDIAN_LINK = Link.parse_gates('(0,0)->(1,1/2)')
 
 
 def check_genus5_non_ye():
-    YE_proto = get_ye_curve().proto
+    YE_proto = get_ye_curve().curve.proto
     YE_protos = set(bm * YE_proto for bm in BaseMap.gen_base_maps(dim=2))
     paths_gen = PathsGenerator(dim=2, div=5, links=(SIDE_LINK,), max_cdist=1)
     paths_list = list(paths_gen.generate_paths(std=True))
@@ -39,7 +39,7 @@ def check_genus5_non_ye():
 
 
 def check_genus5_ye_proto():
-    YE_curve = get_ye_curve()
+    YE_curve = get_ye_curve().curve
     YE_proto = YE_curve.proto
     YE_protos = set(bm * YE_proto for bm in BaseMap.gen_base_maps(dim=2))
     paths_gen = PathsGenerator(dim=2, div=5, links=(SIDE_LINK,), max_cdist=1)
@@ -50,7 +50,7 @@ def check_genus5_ye_proto():
     assert len(paths_list) == 1
 
     test_pcurves = []
-    ye_pcurve = get_ye_curve().forget()
+    ye_pcurve = get_ye_curve().curve.forget()
     for cnum, ye_spec in enumerate(YE_curve.specs):
         allowed = ye_pcurve.gen_allowed_specs(pnum=0, cnum=cnum)
         test_pcurves += [ye_pcurve.specify(pnum=0, cnum=cnum, spec=sp) for sp in allowed if sp != ye_spec]
@@ -70,7 +70,7 @@ def check_genus5_ye_proto():
 def check_ye():
     estimator = Estimator(ratio_l2)
     result = estimator.estimate_dilation_regular(
-        get_ye_curve(),
+        get_ye_curve().curve,
         use_face_moments=True, face_dim=0,
         max_depth=5,
         rel_tol_inv=100000,
-- 
2.43.0


From bded2b16b49abc8f0697f65980eda6be02e01f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:43 +0000
Subject: [PATCH 08/11] fix: plot multifractals with more than four patterns

E.g. the iupiter curve from the zoo gave IndexError.
---
 plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plots.py b/plots.py
index 1bdfcd8..f96661e 100644
--- a/plots.py
+++ b/plots.py
@@ -14,8 +14,8 @@ def plot_curve(curve, grid=True, separate=False, subdivision=0, output_file=None
     """
 
     # render config
-    pattern_names = 'abcd'
-    colors = ['tab:cyan','orange','green','pink']
+    pattern_names = 'abcdefghij'
+    colors = ['tab:cyan','orange','green','pink','blue','red','purple','olive','brown','gray']
     box_aspect = (1, 1, 0.9)
     sub_linewidth = 0.8
     dpi = 300
-- 
2.43.0


From 63c4fb075c953da8b28a29870827c1023ce03bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:43 +0000
Subject: [PATCH 09/11] fix: Spec.parse reads pattern numbers of several digits

str() of such a spec could not be parsed back.
---
 peano/base_maps.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 0e5326a..0038b18 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -311,12 +311,9 @@ class Spec:
     @classmethod
     def parse(cls, text: str) -> Spec:
         """Parse spec, e.g. 3ijk for pnum=3 and bm=ijk."""
-        if text[0].isdigit():
-            pnum = int(text[0])
-            basis = text[1:]
-        else:
-            pnum = 0
-            basis = text
+        basis = text.lstrip('0123456789')
+        digits = text[:len(text)-len(basis)]
+        pnum = int(digits) if digits else 0
         return cls(base_map=BaseMap.parse(basis), pnum=pnum)
 
     def __str__(self) -> str:
-- 
2.43.0


From ae6f103f9c2a2b606ec51d3a63193ef8730f59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:43 +0000
Subject: [PATCH 10/11] fix: init_from_paths accepts any iterable of base maps

A generator was exhausted by the first use.
---
 peano/curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 63f9757..4e57dda 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -712,7 +712,8 @@ class PathFuzzyCurve(FuzzyCurve):
         div = paths[0].div
 
         if base_maps_group is None:
-            base_maps_group = list(BaseMap.gen_base_maps(dim))
+            base_maps_group = BaseMap.gen_base_maps(dim)
+        base_maps_group = list(base_maps_group)  # iterated many times
         if disable_time_rev:
             base_maps_group = [bm for bm in base_maps_group if not bm.time_rev]
 
-- 
2.43.0


From 76363ee0835a3debab3b4b7c3f8ae2d1379fc0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:55 +0000
Subject: [PATCH 11/11] fix: model curve keeps the selected pattern of the
 fuzzy curve

---
 peano/_sat_adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/_sat_adapters.py b/peano/_sat_adapters.py
index d7712f0..fb1481a 100644
--- a/peano/_sat_adapters.py
+++ b/peano/_sat_adapters.py
@@ -214,4 +214,4 @@ class CurveSATAdapter:
         for pnum, pattern in enumerate(curve.patterns):
             specs = specs_allowed_by_model[pnum * G : (pnum + 1) * G]
             patterns.append((pattern.proto, specs))
-        return Curve(dim=curve.dim, div=curve.div, patterns=patterns)
+        return Curve(dim=curve.dim, div=curve.div, patterns=patterns, pnum=curve.pnum)
-- 
2.43.0

