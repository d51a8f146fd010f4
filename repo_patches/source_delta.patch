From 802932e5af407862bc6ea13c76d8c5c55d990f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 01/70] fix: keep is_reversed when Cap/Cup are built on complex
 types

Cap and Cup on a complex type expand to single-wire boxes, but the
recursive constructor calls (and to_left/to_right) dropped is_reversed, so
every reversed cap or cup on more than one wire raised ValueError; a
functor applied to a daggered cup hit this whenever its image was complex.
---
 lambeq/backend/grammar.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7d9026c..29b7ebb 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1462,7 +1462,7 @@ class Cap(Box):
 
             diagram = cls.category.Diagram.id()
             for i, (l_ob, r_ob) in enumerate(zip(left, reversed(right))):
-                diagram = diagram.then_at(cls(l_ob, r_ob), i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed), i)
             return diagram
 
     def __reduce__(self):
@@ -1475,11 +1475,11 @@ class Cap(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.r if is_reversed else left.l)
+        return cls(left, left.r if is_reversed else left.l, is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.l if is_reversed else right.r, right)
+        return cls(right.l if is_reversed else right.r, right, is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cap."""
@@ -1589,7 +1589,8 @@ class Cup(Box):
 
             diagram = cls.category.Diagram.id(left @ right)
             for i, (l_ob, r_ob) in enumerate(zip(reversed(left), right)):
-                diagram = diagram.then_at(cls(l_ob, r_ob), len(left) - 1 - i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed),
+                                          len(left) - 1 - i)
             return diagram
 
     def __reduce__(self):
@@ -1602,11 +1603,11 @@ class Cup(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.l if is_reversed else left.r)
+        return cls(left, left.l if is_reversed else left.r, is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.r if is_reversed else right.l, right)
+        return cls(right.r if is_reversed else right.l, right, is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cup."""
-- 
2.43.0


From fd7ca09e85165b07dda92b58c1577a8153e05c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 02/70] fix: Frame.rotate reverses its components only on odd
 rotations

---
 lambeq/backend/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 29b7ebb..86218be 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2151,12 +2151,13 @@ class Frame(Box):
 
     def rotate(self, z: int) -> Self:
         """Rotate the box, changing the winding number."""
+        components = (reversed(self.components) if z % 2 == 1
+                      else self.components)
         return replace(self,
                        dom=self.dom.rotate(z),
                        cod=self.cod.rotate(z),
                        z=self.z + z,
-                       components=[c.rotate(z) for c in
-                                   reversed(self.components)])
+                       components=[c.rotate(z) for c in components])
 
     def dagger(self) -> DaggeredFrame | Frame:
         return DaggeredFrame(self)
-- 
2.43.0


From 5415c2c8af1202cfe57898eee9c1cbe5f9f39964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 03/70] fix: rotating quantum boxes keeps their attributes;
 scalars and bits can be rotated

---
 lambeq/backend/quantum.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5f836f5..5bf4d31 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -161,6 +161,13 @@ class Box(tensor.Box):
 
         return Daggered(self)
 
+    def rotate(self, z: int):
+        """Rotate the box."""
+        rotated = super().rotate(z)
+        rotated.is_mixed = self.is_mixed
+        rotated.self_adjoint = self.self_adjoint
+        return rotated
+
     def __hash__(self) -> int:
         return super().__hash__()
 
@@ -1088,6 +1095,12 @@ class Scalar(Box):
     def dagger(self):
         return replace(self, data=self.data.conjugate())
 
+    def rotate(self, z):
+        """Rotate the scalar, conjugating it on odd rotations."""
+        if z % 2 == 0:
+            return self
+        return self.dagger()
+
 
 @dataclass
 class Sqrt(Scalar):
@@ -1154,7 +1167,7 @@ class Daggered(tensor.Daggered, Box):
     __repr__: Callable[[Box], str] = Box.__repr__   # type: ignore[assignment]
 
 
-class Bit(Box):
+class Bit(SelfConjugate, Box):
     """Classical state for a given bit."""
 
     def __new__(cls, *bitstring: int):
-- 
2.43.0


From 4522f91e75abd20628b9989f1696df28a3d89252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 04/70] fix: from_json leaves the dictionary it decodes
 unchanged

---
 lambeq/backend/grammar.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 86218be..e45c406 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -365,7 +365,8 @@ class Ty(Entity):
         :py:class:`~lambeq.backend.Ty`
             The type generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['objects'] = [cls.from_json(obj_data)
                                 for obj_data
@@ -540,7 +541,8 @@ class Box(Entity):
         :py:class:`~lambeq.backend.Box`
             The box generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -647,7 +649,8 @@ class Layer(Entity):
         :py:class:`~lambeq.backend.grammar.Layer`
             The layer generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         _entity_mapping = {
@@ -1336,7 +1339,8 @@ class Diagram(Entity):
         :py:class:`~lambeq.backend.Diagram`
             The diagram generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -1507,7 +1511,8 @@ class Cap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1637,7 +1642,8 @@ class Cup(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1694,7 +1700,8 @@ class Daggered(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         box = cls.category.Box.from_json(data_dict['box'])
 
@@ -1797,7 +1804,8 @@ class Spider(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['type'] = cls.category.Ty.from_json(data_dict['type'])
 
@@ -1890,7 +1898,8 @@ class Swap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1951,7 +1960,8 @@ class Word(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
 
@@ -2188,7 +2198,8 @@ class Frame(Box):
         :py:class:`~lambeq.backend.Frame`
             The frame generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -2274,7 +2285,8 @@ class DaggeredFrame(Frame):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> DaggeredFrame:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         frame_cls = cls.category.Diagram.special_boxes['frame']
         frame = frame_cls.from_json(     # type: ignore[attr-defined]
-- 
2.43.0


From a2dea5530b1e3468455ba06c24e496a863cb9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 05/70] fix: decode daggered words and frames with any kind of
 component

---
 lambeq/backend/grammar.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index e45c406..c829b88 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1703,9 +1703,9 @@ class Daggered(Box):
         data_dict = (json.loads(data) if isinstance(data, str)
                      else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
-        box = cls.category.Box.from_json(data_dict['box'])
+        box = cls.category.from_json(data_dict['box'])
 
-        return box.dagger()  # type: ignore[return-value]
+        return box.dagger()  # type: ignore[attr-defined]
 
     def to_json(self, is_top_level: bool = True) -> _JSONDictT:
         data_dict: _JSONDictT = {
@@ -2203,19 +2203,8 @@ class Frame(Box):
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
-        components = []
-        for component_json in data_dict['components']:
-            component_entity = component_json['entity']
-            if component_entity == 'Diagram':
-                component = cls.category.Diagram.from_json(component_json)
-            else:
-                comp_cls = cls.category.Diagram.special_boxes[
-                    component_entity.lower()
-                ]
-                component = comp_cls.from_json(    # type: ignore[attr-defined]
-                    component_json
-                )
-            components.append(component)
+        components = [cls.category.from_json(component_json)
+                      for component_json in data_dict['components']]
 
         data_dict['components'] = components
 
-- 
2.43.0


From 97632135340831706d8817063809b017063a8c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 06/70] fix: lambdify keeps the winding number and flags of a
 box

---
 lambeq/backend/quantum.py | 11 +++++++++++
 lambeq/backend/tensor.py  |  5 ++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5bf4d31..2040d0b 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -168,6 +168,17 @@ class Box(tensor.Box):
         rotated.self_adjoint = self.self_adjoint
         return rotated
 
+    def lambdify(self, *symbols, **kwargs):
+        box_fn = super().lambdify(*symbols, **kwargs)
+
+        def concrete_box(*xs):
+            box = box_fn(*xs)
+            box.is_mixed = self.is_mixed
+            box.self_adjoint = self.self_adjoint
+            return box
+
+        return concrete_box
+
     def __hash__(self) -> int:
         return super().__hash__()
 
diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 00cc12b..4c9e1e9 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -278,9 +278,8 @@ class Box(grammar.Box):
         if not any(x in self.free_symbols for x in symbols):
             return lambda *xs: self
 
-        return lambda *xs: type(self)(
-            self.name, self.dom, self.cod,
-            lambdify(symbols, self.data)(*xs))
+        return lambda *xs: replace(
+            self, data=lambdify(symbols, self.data)(*xs))
 
     def __repr__(self) -> str:
         return (f'[{self.name}{".l"*(-self.z)}{".r"*self.z}; '
-- 
2.43.0


From e2b56a54a2d6e637b26dc3aa1f3bb8d1f2741425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:03 +0000
Subject: [PATCH 07/70] fix: a functor caches an image only after checking its
 boundary

---
 lambeq/backend/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index c829b88..aa560f5 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2089,8 +2089,6 @@ class Functor:
         else:
             ret = self.target_category.Diagram.id(self.ob_with_cache(ar.dom))
 
-        self.ar_cache[ar] = ret
-
         cod_check = self.ob_with_cache(ar.cod)
         dom_check = self.ob_with_cache(ar.dom)
         if ret.cod != cod_check or ret.dom != dom_check:
@@ -2098,6 +2096,8 @@ class Functor:
                             f'to a box returns dom = {ret.dom}, cod = '
                             f'{ret.cod} expected dom = {dom_check}, cod = '
                             f'{cod_check}')
+
+        self.ar_cache[ar] = ret
         return ret
 
     def ob(self, ob: Ty) -> Ty:
-- 
2.43.0


From 29f77038d9bcf22e2e3a1685e7a478571c73b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 08/70] fix: planar diagrams of generalised crossed
 compositions keep the diagram of the functor side

---
 lambeq/text2diagram/ccg_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 0c156fa..e611c2c 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -503,7 +503,7 @@ class CCGTree:
             inner = right_words >> right_diag
             cups = Diagram.cups(join, join.r)
             mid = (Id(join) @ inner) >> (cups @ Id(inner.cod[len(join):]))
-            diag = Id(left) @ mid @ Id(right)
+            diag = left_diag >> Id(left) @ mid @ Id(right)
         elif planar and (self.rule
                          == CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION):
             (left_words, left_diag), (words, right_diag) = children
@@ -514,7 +514,7 @@ class CCGTree:
             inner = left_words >> left_diag
             cups = Diagram.cups(join.l, join)
             mid = (inner @ Id(join)) >> (Id(inner.cod[:-len(join)]) @ cups)
-            diag = Id(left) @ mid @ Id(right)
+            diag = right_diag >> Id(left) @ mid @ Id(right)
         else:
             words, diag = [Id().tensor(*d) for d in zip(*children)]
             diag >>= this_layer
-- 
2.43.0


From a1ba83115375b320df397a4868ff9be7da9332e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 09/70] fix: word rewrite rules only match boxes with the
 domain of their result

---
 lambeq/rewrite/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 2ef4783..636d88f 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -170,8 +170,9 @@ class SimpleRewriteRule(RewriteRule):
 
     def matches(self, box: Box) -> bool:
         word = box.name if self.case_sensitive else box.name.lower()
-        return box.cod == self.cod and (self.words is None
-                                        or word in self.words)
+        return (box.dom == self.template.dom
+                and box.cod == self.cod
+                and (self.words is None or word in self.words))
 
     def rewrite(self, box: Box) -> Diagrammable:
         def replace_placeholder(_, ar: Box) -> Box:
@@ -270,7 +271,9 @@ class CoordinationRewriteRule(RewriteRule):
         self.words = ['and'] if words is None else words
 
     def matches(self, box: Box) -> bool:
-        if box.name in self.words and len(box.cod) % 3 == 0:
+        if (box.name in self.words
+                and not box.dom
+                and len(box.cod) % 3 == 0):
             n = len(box.cod) // 3
             left, mid, right = box.cod[:n], box.cod[n:2*n], box.cod[2*n:]
             return bool(right.r == mid == left.l)
-- 
2.43.0


From 6ca96748f36f27bffccd4b9d39057870260c71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 10/70] fix: RemoveSwapsRewriter adjusts the offsets of the
 right morphisms

---
 lambeq/rewrite/rewrite_diagram.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index d6d1c5f..487cc8e 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -358,20 +358,16 @@ class RemoveSwapsRewriter(DiagramRewriter):
             wrd_offsets.append(total_ofs)
             total_ofs += len(w.cod)
 
-        # Create new morphism and offset lists
-        new_morphisms: list[Box] = []
-        mor_offsets: list[int] = []
+        # Adjust the offsets of all morphisms above a deleted cup
         for m_idx, m in enumerate(morphisms):
-            if not m.deleted:
-                # morphism is not deleted, add it with its offset
-                new_morphisms.append(m.morphism)
-                mor_offsets.append(m.offset)
-            else:
-                # cup is deleted, adjust all above offsets if required
-                for j in range(m_idx):
-                    if (not morphisms[j].deleted
-                            and morphisms[j].start > morphisms[m_idx].start):
-                        mor_offsets[j] -= 2
+            if m.deleted:
+                for prev in morphisms[:m_idx]:
+                    if not prev.deleted and prev.start > m.start:
+                        prev.offset -= 2
+
+        # Create new morphism and offset lists
+        new_morphisms = [m.morphism for m in morphisms if not m.deleted]
+        mor_offsets = [m.offset for m in morphisms if not m.deleted]
 
         new_diag = Id(diagram.dom)
         for box, offset in zip(new_words+new_morphisms,
-- 
2.43.0


From 0fb3ee1cb3250a155cd2bf67064afc214a76afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:23 +0000
Subject: [PATCH 11/70] fix: RemoveSwapsRewriter merges a cancelled last word
 into the previous one

---
 lambeq/rewrite/rewrite_diagram.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 487cc8e..e3f7931 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -343,13 +343,18 @@ class RemoveSwapsRewriter(DiagramRewriter):
                 # word type has been reduced in length
                 typ = Ty().tensor(*[atomic_types[i] for i in scan])
                 new_words.append(Word(wrd.word.name, typ))
-            else:
+            elif w_idx + 1 < len(words):
                 # word type has been eliminated, merge word label
                 # with next one
                 next_wrd = words[w_idx + 1]
                 new_wrd = Word(f'{wrd.word.name} {next_wrd.word.name}',
                                next_wrd.word.cod)
                 next_wrd.word = new_wrd
+            elif new_words:
+                # no next word, merge word label with previous one
+                prev_wrd = new_words.pop()
+                new_words.append(Word(f'{prev_wrd.name} {wrd.word.name}',
+                                      prev_wrd.cod))
 
         # Compute new word offsets
         total_ofs = 0
-- 
2.43.0


From 6906313d1635c5cbba84e5545f4a8b9b08a5b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 12/70] fix: tensor and quantum equality compares class,
 winding number and mixedness

---
 lambeq/backend/quantum.py | 6 +++++-
 lambeq/backend/tensor.py  | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 2040d0b..7d7c8b5 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -94,7 +94,8 @@ class Ty(tensor.Dim):
         return hash(repr(self))
 
     def __eq__(self, other):
-        return (self.label == other.label
+        return (isinstance(other, Ty)
+                and self.label == other.label
                 and self.name == other.name
                 and self.objects == other.objects)
 
@@ -179,6 +180,9 @@ class Box(tensor.Box):
 
         return concrete_box
 
+    def __eq__(self, other):
+        return super().__eq__(other) and self.is_mixed == other.is_mixed
+
     def __hash__(self) -> int:
         return super().__hash__()
 
diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 4c9e1e9..ea34e2e 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -167,10 +167,12 @@ class Box(grammar.Box):
         self.z = z
 
     def __eq__(self, other):
-        return (self.name == other.name
+        return (type(self) is type(other)
+                and self.name == other.name
                 and self.dom == other.dom
                 and self.cod == other.cod
-                and np.equal(self.data, other.data).all())
+                and self.z == other.z
+                and np.array_equal(self.data, other.data))
 
     @property
     def array(self):
-- 
2.43.0


From f5104dae673067d2b5e18e3d8fa0b2d766570b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 13/70] fix: the representation of a controlled gate shows its
 control distance

---
 lambeq/backend/quantum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 7d7c8b5..c44c2fb 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -969,6 +969,9 @@ class Controlled(Parametrized):
                          controlled.data,
                          controlled.is_mixed)
 
+    def __repr__(self) -> str:
+        return f'Controlled({self.controlled!r}, distance={self.distance})'
+
     def __hash__(self) -> int:
         return hash((self.controlled, self.distance))
 
-- 
2.43.0


From 9b66ec398ada8212c4f657b975b70c8e814e415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 14/70] fix: reset the training flag when QuantumTrainer.fit
 raises

---
 lambeq/training/quantum_trainer.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lambeq/training/quantum_trainer.py b/lambeq/training/quantum_trainer.py
index 0a02309..d143191 100644
--- a/lambeq/training/quantum_trainer.py
+++ b/lambeq/training/quantum_trainer.py
@@ -201,14 +201,15 @@ class QuantumTrainer(Trainer):
 
         self.model._training = True
 
-        super().fit(train_dataset,
-                    val_dataset,
-                    log_interval,
-                    eval_interval,
-                    eval_mode,
-                    early_stopping_criterion,
-                    early_stopping_interval,
-                    minimize_criterion,
-                    full_timing_report,)
-
-        self.model._training = False
+        try:
+            super().fit(train_dataset,
+                        val_dataset,
+                        log_interval,
+                        eval_interval,
+                        eval_mode,
+                        early_stopping_criterion,
+                        early_stopping_interval,
+                        minimize_criterion,
+                        full_timing_report,)
+        finally:
+            self.model._training = False
-- 
2.43.0


From 71d5a5df054d09ee2c7ef2bb00c1304a66beb039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 15/70] fix: restore the model weights when an optimiser's
 evaluation raises

---
 lambeq/training/nelder_mead_optimizer.py | 12 +++++-
 lambeq/training/rotosolve_optimizer.py   | 47 ++++++++++++++----------
 lambeq/training/spsa_optimizer.py        | 29 ++++++++-------
 3 files changed, 53 insertions(+), 35 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 6b2377c..31cb2ae 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -279,6 +279,16 @@ class NelderMeadOptimizer(Optimizer):
             The calculated loss.
 
         """
+        initial_weights = self.model.weights
+        try:
+            return self._update_simplex(batch)
+        except BaseException:
+            self.model.weights = initial_weights
+            raise
+
+    def _update_simplex(self,
+                        batch: tuple[Iterable[Any], np.ndarray]) -> float:
+        """Move the simplex and set the gradient to its best vertex."""
         diagrams, targets = batch
         diags_gen = flatten(diagrams)
 
@@ -368,7 +378,7 @@ class NelderMeadOptimizer(Optimizer):
         if self.ncalls >= self.maxfev:
             warnings.warn(
                 'Maximum number of function evaluations exceeded.',
-                stacklevel=3
+                stacklevel=4
             )
 
         return loss
diff --git a/lambeq/training/rotosolve_optimizer.py b/lambeq/training/rotosolve_optimizer.py
index af15e4c..d03bfbe 100644
--- a/lambeq/training/rotosolve_optimizer.py
+++ b/lambeq/training/rotosolve_optimizer.py
@@ -100,26 +100,33 @@ class RotosolveOptimizer(Optimizer):
 
         """
         diagrams, targets = batch
-
-        for i in range(len(self.model.weights)):
-            # M_phi
-            phi = self.model.weights[i]
-            m_phi = self.loss_fn(self.model(diagrams), targets)
-
-            # M_phi + pi/2
-            self.model.weights[i] = phi + 1/4
-            m_phi_plus = self.loss_fn(self.model(diagrams), targets)
-
-            # M_phi - pi/2
-            self.model.weights[i] = phi - 1/4
-            m_phi_minus = self.loss_fn(self.model(diagrams), targets)
-
-            # Update weight
-            angle = np.arctan2(2*m_phi - m_phi_plus - m_phi_minus,
-                               m_phi_plus - m_phi_minus)
-            self.model.weights[i] = self.project(phi - 1/4 - angle / (2*np.pi))
-
-        return self.loss_fn(self.model(diagrams), targets)
+        initial_weights = np.copy(self.model.weights)
+
+        try:
+            for i in range(len(self.model.weights)):
+                # M_phi
+                phi = self.model.weights[i]
+                m_phi = self.loss_fn(self.model(diagrams), targets)
+
+                # M_phi + pi/2
+                self.model.weights[i] = phi + 1/4
+                m_phi_plus = self.loss_fn(self.model(diagrams), targets)
+
+                # M_phi - pi/2
+                self.model.weights[i] = phi - 1/4
+                m_phi_minus = self.loss_fn(self.model(diagrams), targets)
+
+                # Update weight
+                angle = np.arctan2(2*m_phi - m_phi_plus - m_phi_minus,
+                                   m_phi_plus - m_phi_minus)
+                self.model.weights[i] = self.project(
+                    phi - 1/4 - angle / (2*np.pi)
+                )
+
+            return self.loss_fn(self.model(diagrams), targets)
+        except BaseException:
+            self.model.weights = initial_weights
+            raise
 
     def step(self) -> None:
         # No global step is taken
diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 63cf524..8e45342 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -155,17 +155,21 @@ class SPSAOptimizer(Optimizer):
         delta = np.random.choice([-1, 1], size=len(x))
 
         # calculate gradient
-        xplus = self.project(x + self.ck * delta)
-        self.model.weights = xplus
-        y0 = self.model(diagrams)
-        loss0 = self.loss_fn(y0, targets)
-        self._warn_if_nan_or_inf(loss0)
-
-        xminus = self.project(x - self.ck * delta)
-        self.model.weights = xminus
-        y1 = self.model(diagrams)
-        loss1 = self.loss_fn(y1, targets)
-        self._warn_if_nan_or_inf(loss1)
+        try:
+            xplus = self.project(x + self.ck * delta)
+            self.model.weights = xplus
+            y0 = self.model(diagrams)
+            loss0 = self.loss_fn(y0, targets)
+            self._warn_if_nan_or_inf(loss0)
+
+            xminus = self.project(x - self.ck * delta)
+            self.model.weights = xminus
+            y1 = self.model(diagrams)
+            loss1 = self.loss_fn(y1, targets)
+            self._warn_if_nan_or_inf(loss1)
+        finally:
+            # restore parameter value
+            self.model.weights = x
 
         if self.bounds is None:
             grad = (loss0 - loss1) / (2 * self.ck * delta)
@@ -174,9 +178,6 @@ class SPSAOptimizer(Optimizer):
 
         self.gradient += grad * mask
 
-        # restore parameter value
-        self.model.weights = x
-
         loss = (loss0 + loss1) / 2
         return loss
 
-- 
2.43.0


From c91a229caaf74603dfc3d9bcf3b7edb57fc4ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 16/70] fix: replace a checkpoint only by a completely written
 file

---
 lambeq/training/checkpoint.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lambeq/training/checkpoint.py b/lambeq/training/checkpoint.py
index 7eb8036..097dd18 100644
--- a/lambeq/training/checkpoint.py
+++ b/lambeq/training/checkpoint.py
@@ -125,11 +125,21 @@ class Checkpoint(Mapping):
             Path to the checkpoint file.
 
         """
+        # write to a temporary file first, such that a previous checkpoint
+        # is only ever replaced by a complete one
+        tmp_path = f'{os.fspath(path)}.tmp'
         try:
-            with open(path, 'wb+') as ckp:
+            with open(tmp_path, 'wb') as ckp:
                 pickle.dump(self.entries, ckp)
-        except FileNotFoundError as e:
-            raise FileNotFoundError(
-                'The directory does not exist. Check path `{path}`'
-            ) from e
+                ckp.flush()
+                os.fsync(ckp.fileno())
+            os.replace(tmp_path, path)
+        except BaseException as e:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            if isinstance(e, FileNotFoundError):
+                raise FileNotFoundError(
+                    f'The directory does not exist. Check path `{path}`'
+                ) from e
+            raise
         self.entries = {}
-- 
2.43.0


From b4ee3d46bb7369c62aada6577dceb38087faea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 17/70] fix: never accept a partially installed model

---
 lambeq/text2diagram/model_based_reader/base.py             | 1 +
 lambeq/text2diagram/model_based_reader/model_downloader.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/lambeq/text2diagram/model_based_reader/base.py b/lambeq/text2diagram/model_based_reader/base.py
index 189175f..434de0f 100644
--- a/lambeq/text2diagram/model_based_reader/base.py
+++ b/lambeq/text2diagram/model_based_reader/base.py
@@ -110,6 +110,7 @@ class ModelBasedReader(Reader):
             self.model_dir = downloader.model_dir
             if (self.force_download
                     or not self.model_dir.is_dir()
+                    or downloader.get_local_model_version() is None
                     or downloader.model_is_stale()):
                 try:
                     downloader.download_model(self.verbose)
diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index 4496379..0f63eee 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -208,6 +208,9 @@ class ModelDownloader:
 
             model_file.close()
 
+            # Files without a version file are not a valid installation
+            (self.model_dir / VERSION_FNAME).unlink(missing_ok=True)
+
             # Copy extracted model to model_dir
             copytree(extraction_target,
                      str(self.model_dir),
-- 
2.43.0


From 9da008dddf7efaccaf3e81b966c392a85ae38ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:48 +0000
Subject: [PATCH 18/70] fix: keep the best validation score when training is
 resumed

A resumed run started with an infinite best score, so that its first
validation always replaced best_model.lt, even by a worse model.
---
 lambeq/training/trainer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 2e426dc..f1d456b 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -546,6 +546,12 @@ class Trainer(ABC):
         factor = 1 if minimize_criterion else -1
         best_epoch = 0
         best_step = 0
+        best_val_criterion = float('inf')
+        if self.from_checkpoint:
+            best_epoch = self.checkpoint.get('best_epoch', best_epoch)
+            best_step = self.checkpoint.get('best_step', best_step)
+            best_val_criterion = self.checkpoint.get('best_val_criterion',
+                                                     best_val_criterion)
 
         logging_step = log_interval * evaluation_step
         total_steps = self.epochs * train_dataset.batches_per_epoch
@@ -567,7 +573,6 @@ class Trainer(ABC):
         # start training loop
         with backend(self.backend):
             early_stopping = False
-            best_val_criterion = float('inf')
             for epoch in trange(self.start_epoch,
                                 self.epochs + 1,
                                 desc='Epoch',
@@ -701,7 +706,10 @@ class Trainer(ABC):
                                  'train_epoch_durations': self.train_epoch_durations,   # noqa: E501
                                  'val_eval_results': self.val_eval_results,
                                  'random_state': random.getstate(),
-                                 'step': step},
+                                 'step': step,
+                                 'best_epoch': best_epoch,
+                                 'best_step': best_step,
+                                 'best_val_criterion': best_val_criterion},
                                 self.log_dir,
                                 prefix='best_'
                             )
@@ -787,7 +795,10 @@ class Trainer(ABC):
                      'val_durations': self.val_durations,
                      'val_eval_results': self.val_eval_results,
                      'random_state': random.getstate(),
-                     'step': step},
+                     'step': step,
+                     'best_epoch': best_epoch,
+                     'best_step': best_step,
+                     'best_val_criterion': best_val_criterion},
                     self.log_dir)
 
                 if early_stopping:
-- 
2.43.0


From d3a66cae272b24d2fd04a0fa803ad59613dc6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:48 +0000
Subject: [PATCH 19/70] fix: keep collected training metrics when training is
 resumed

With an evaluation interval of several epochs, the metrics collected
since the last evaluation were lost, so that the next result covered
only the epochs after the resumption.
---
 lambeq/training/trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index f1d456b..9297bf5 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -275,6 +275,8 @@ class Trainer(ABC):
         self.val_costs = checkpoint['val_costs']
         self.val_durations = checkpoint['val_durations']
         self.val_eval_results = checkpoint['val_eval_results']
+        self._train_eval_running = checkpoint.get('train_eval_running',
+                                                  self._train_eval_running)
         self.start_epoch = checkpoint['epoch'] + 1
         self.start_step = checkpoint['step']
         if self.seed is not None:
@@ -701,6 +703,7 @@ class Trainer(ABC):
                                  'train_durations': self.train_durations,
                                  'train_epoch_costs': self.train_epoch_costs,
                                  'train_eval_results': self.train_eval_results,
+                                 'train_eval_running': self._train_eval_running,   # noqa: E501
                                  'val_costs': self.val_costs,
                                  'val_durations': self.val_durations,
                                  'train_epoch_durations': self.train_epoch_durations,   # noqa: E501
@@ -790,6 +793,7 @@ class Trainer(ABC):
                      'train_durations': self.train_durations,
                      'train_epoch_costs': self.train_epoch_costs,
                      'train_eval_results': self.train_eval_results,
+                     'train_eval_running': self._train_eval_running,
                      'train_epoch_durations': self.train_epoch_durations,
                      'val_costs': self.val_costs,
                      'val_durations': self.val_durations,
-- 
2.43.0


From 0bab4f011a601ba329566bcab2b6e8ac4b923ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 20/70] fix: draw the shot seeds of TketModel from the seeded
 generator

They came from an unseeded generator of the model's own, so that runs
with the same trainer seed differed, and a resumed run could not
continue from the stored random state.
---
 lambeq/training/tket_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/tket_model.py b/lambeq/training/tket_model.py
index 28fe1a4..7743205 100644
--- a/lambeq/training/tket_model.py
+++ b/lambeq/training/tket_model.py
@@ -62,10 +62,11 @@ class TketModel(QuantumModel):
             raise KeyError('Missing arguments in backend configuation. '
                            f'Missing arguments: {missing_fields}.')
         self.backend_config = backend_config
-        self.rng = np.random.default_rng()
 
     def _randint(self, low: int = -1 << 63, high: int = (1 << 63)-1) -> int:
-        return self.rng.integers(low, high, dtype=np.int64)
+        # the global generator, so that seeded runs are reproducible and
+        # its state is part of the training checkpoints
+        return int(np.random.randint(low, high, dtype=np.int64))
 
     def get_diagram_output(self, diagrams: list[Diagram]) -> np.ndarray:
         """Return the prediction for each diagram using t|ket>.
-- 
2.43.0


From a2618e33c2dd9d10794466642528c0f519ffc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 21/70] fix: discard compiled diagrams when NumpyModel loads a
 checkpoint

They map the weights to the symbols in the order the symbols had before
loading.
---
 lambeq/training/numpy_model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lambeq/training/numpy_model.py b/lambeq/training/numpy_model.py
index f45efb0..e3edce1 100644
--- a/lambeq/training/numpy_model.py
+++ b/lambeq/training/numpy_model.py
@@ -35,6 +35,7 @@ from numpy.typing import ArrayLike
 from lambeq.backend import numerical_backend
 from lambeq.backend.quantum import Diagram as Circuit
 from lambeq.backend.tensor import Diagram
+from lambeq.training.checkpoint import Checkpoint
 from lambeq.training.quantum_model import QuantumModel
 
 if TYPE_CHECKING:
@@ -60,6 +61,21 @@ class NumpyModel(QuantumModel):
         self.use_jit = use_jit
         self.lambdas: dict[Diagram, Callable[..., Any]] = {}
 
+    def _load_checkpoint(self, checkpoint: Checkpoint) -> None:
+        """Load the model weights and symbols from a lambeq
+        :py:class:`.Checkpoint`.
+
+        Parameters
+        ----------
+        checkpoint : :py:class:`.Checkpoint`
+            Checkpoint containing the model weights, symbols and
+            additional information.
+
+        """
+        super()._load_checkpoint(checkpoint)
+        # compiled for the previous order of the symbols
+        self.lambdas = {}
+
     def _get_lambda(self, diagram: Diagram) -> Callable[[Any], Any]:
         """Get lambda function that evaluates the provided diagram.
 
-- 
2.43.0


From 04d22c0475c28ff3a604782925d1c24c49b4f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:38 +0000
Subject: [PATCH 22/70] fix: DepCCGParser suppresses tree building errors and
 leaves the batch as it was

---
 lambeq/text2diagram/depccg_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/depccg_parser.py b/lambeq/text2diagram/depccg_parser.py
index 3d844a7..6751a46 100644
--- a/lambeq/text2diagram/depccg_parser.py
+++ b/lambeq/text2diagram/depccg_parser.py
@@ -259,6 +259,7 @@ class DepCCGParser(CCGParser):
             if TYPE_CHECKING:  # temporary fix
                 from typing import cast     # noqa: I100
                 sentences = cast(list[list[str]], sentences)
+            sentences = [*sentences]
         else:
             if not untokenised_batch_type_check(sentences):
                 raise ValueError('`tokenised` set to `False`, but variable '
@@ -282,7 +283,13 @@ class DepCCGParser(CCGParser):
             parses = self._depccg_parse(sentences)
             for (depccg_tree, *_), sentence in zip(parses, sentences):
                 if depccg_tree.score > float('-inf'):
-                    trees.append(self._build_ccgtree(depccg_tree.tree))
+                    try:
+                        tree = self._build_ccgtree(depccg_tree.tree)
+                    except Exception:
+                        if not suppress_exceptions:
+                            raise
+                        tree = None
+                    trees.append(tree)
                 elif suppress_exceptions:
                     trees.append(None)
                 else:
-- 
2.43.0


From 5f7ee4449213272fb81c634f1f16c7311b7ca8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:38 +0000
Subject: [PATCH 23/70] fix: WebParser suppresses errors in the trees it
 receives

---
 lambeq/text2diagram/web_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/web_parser.py b/lambeq/text2diagram/web_parser.py
index ee15246..188ff6a 100644
--- a/lambeq/text2diagram/web_parser.py
+++ b/lambeq/text2diagram/web_parser.py
@@ -152,15 +152,14 @@ class WebParser(CCGParser):
 
             try:
                 data = requests.get(self.service_url, params=params).json()
-            except requests.RequestException as e:
+                tree = CCGTree.from_json(data)
+            except Exception as e:
                 if suppress_exceptions:
                     tree = None
                 elif isinstance(e, requests.JSONDecodeError):
                     raise WebParseError(str(sentence)) from e
                 else:
                     raise e
-            else:
-                tree = CCGTree.from_json(data)
             trees.append(tree)
 
         for i in empty_indices:
-- 
2.43.0


From 9520e2b1740bdedbceb13ce865058b36bc854507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:38 +0000
Subject: [PATCH 24/70] fix: CCGBankParser gives no tree for a sentence with
 extra text

---
 lambeq/text2diagram/ccgbank_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index e51f362..96a6b05 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -376,10 +376,11 @@ class CCGBankParser(CCGParser):
             assert isinstance(sentence, str)
             tree = None
             try:
-                tree, pos = CCGBankParser._build_ccgtree(sentence, 0)
+                parsed, pos = CCGBankParser._build_ccgtree(sentence, 0)
                 if pos < len(sentence):
                     raise CCGBankParseError(f'extra text from index {pos+1} - '
                                             f'{repr(sentence[pos:])}')
+                tree = parsed
             except Exception as e:
                 if not suppress_exceptions:
                     raise CCGBankParseError(sentence, str(e)) from e
-- 
2.43.0


From dd683029b40913d22f65e9ce9baa0bda20bc76d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 25/70] fix: do not remove entries from the caller's PennyLane
 backend config

PennyLaneCircuit.get_device popped 'backend' (and 'device') from the
dictionary it was given, so a second circuit made with the same
dictionary failed with a KeyError.
---
 lambeq/backend/pennylane.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a20d9aa..fc4460d 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -261,6 +261,8 @@ class PennyLaneCircuit:
             backend = 'default.qubit'
             backend_config = {}
         else:
+            # copy, as the keys used here are taken out below
+            backend_config = {**backend_config}
             backend = backend_config.pop('backend')
 
         if backend == 'honeywell.hqs':
-- 
2.43.0


From a06cc08edb636fef7c8b7ab1e425943995481963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 26/70] fix: convert circuits with several adjacent scalars to
 PennyLane

to_pennylane removed scalars from the list it was iterating over, so
the scalar after each removed one was skipped and raised a KeyError.
---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index fc4460d..824f01f 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -198,7 +198,7 @@ def to_pennylane(diagram: Diagram,
     circuit_info = readoff_circuital(diagram)
 
     scalar = 1.0
-    for gate in circuit_info.gates:
+    for gate in list(circuit_info.gates):
         if gate.gtype == 'Scalar' and gate.phase is not None:
             scalar *= gate.phase
             circuit_info.gates.remove(gate)
-- 
2.43.0


From 20b9150ede209a20613cc49f224d8e0b719a81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 27/70] fix: do not keep the caller's post selection in a tket
 circuit

Circuit.post_select and rename_units update the dictionary in place.
---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index ed7fb63..98fbc13 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -81,7 +81,7 @@ class Circuit(tk.Circuit):
                  post_selection: dict[int, int] | None = None,
                  scalar: float | None = None,
                  post_processing: Diagram | None = None) -> None:
-        self.post_selection = post_selection or {}
+        self.post_selection = dict(post_selection or {})
         self.scalar = scalar or 1
         self.post_processing = (
             post_processing or Id(bit ** (n_bits - len(self.post_selection))))
-- 
2.43.0


From 3db2dc2a95eb2fb357f72afdf4c251618f8c1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 28/70] fix: do not remove cups from a list while iterating
 over it

---
 lambeq/text2diagram/pregroup_tree_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 4e56ff9..d1ac42f 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -361,7 +361,7 @@ def _construct_tree(
         children_words_right: list[tuple[str, int]] = []
         for typ_ind in word_typ_indices:
             if typ_ind not in free_strings:
-                for box in all_cups:
+                for box in list(all_cups):
                     if box[0] == 'Cup' and typ_ind in box[1:]:
                         if box[2] == typ_ind:
                             # the type (from the parent) is cup.right
-- 
2.43.0


From 360b1ee5dfa4f5eb3ddfb5c758b0826958a347bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 29/70] fix: do not replace the diagrams in the list given to
 DiagramSaveModule

---
 lambeq/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index c97079b..a785d90 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -541,6 +541,7 @@ class DiagramSaveModule(CLIModule):
                  cl_args: argparse.Namespace,
                  module_input: list[grammar.Diagram]) -> None:
         if cl_args.output_format in ['text-ascii', 'text-unicode']:
+            module_input = list(module_input)
             for i in range(len(module_input)):
                 if not module_input[i].is_pregroup:
                     module_input[i] = module_input[i].pregroup_normal_form()
-- 
2.43.0


From fde2d6d9ad67905e0eb1056d9dbabcef5a9f5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 30/70] fix: order the symbols of a PennyLane circuit
 independently of hashing

The order of a set of symbols depends on the hash seed of the process.
---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 824f01f..7d8e4ef 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -210,7 +210,7 @@ def to_pennylane(diagram: Diagram,
     post_selection = circuit_info.postmap
 
     return PennyLaneCircuit(op_list,
-                            list(symbols_set),
+                            sorted(symbols_set),
                             params_list,
                             wires_list,
                             probabilities,
-- 
2.43.0


From 3468ba6a11d3dc51d0572a7c7bd135d2d610bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 31/70] fix: list the open wires of a PennyLane circuit in
 order

get_valid_states relied on the iteration order of a set.
---
 lambeq/backend/pennylane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 7d8e4ef..f1c0699 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -355,7 +355,8 @@ class PennyLaneCircuit:
         keep_indices = []
         fixed = ['0' if self._post_selection.get(i, 0) == 0 else
                  '1' for i in range(self._n_qubits)]
-        open_wires = set(range(self._n_qubits)) - self._post_selection.keys()
+        open_wires = [i for i in range(self._n_qubits)
+                      if i not in self._post_selection]
         permutations = [''.join(s) for s in product('01',
                                                     repeat=len(open_wires))]
         for perm in permutations:
-- 
2.43.0


From b324a06657266ac33752660c099c3440cfb5c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 32/70] fix: keep the phase of controlled Ry rotations when
 exporting circuits

Gate.from_box read the phase of CRx and CRz boxes only, so circuits
with a CRy could not be converted to tket or PennyLane.
---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index c44c2fb..26f9b7a 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1631,7 +1631,7 @@ class Gate:
             control = sorted(qubits[:-1])
             gate_q = qubits[-1]
 
-            if gtype in ('CRx', 'CRz'):
+            if gtype in ('CRx', 'CRy', 'CRz'):
                 phase = box.phase
                 if use_sympy and isinstance(box.phase, Symbol):
                     # Tket uses sympy, lambeq uses custom symbol
-- 
2.43.0


From 490db1ec3c261fdcb94a9f1df78daac72fddebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 33/70] fix: convert rotations with a phase of zero to tket

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 98fbc13..9616f09 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -251,7 +251,7 @@ def to_tk(diagram: Diagram) -> Circuit:
         elif gate.gtype not in OPTYPE_MAP:
             raise NotImplementedError(f'Gate {gate.gtype} not supported')
 
-        if gate.phase:
+        if gate.phase is not None:
             op = Op.create(OPTYPE_MAP[gate.gtype], 2 * gate.phase)
         else:
             op = Op.create(OPTYPE_MAP[gate.gtype])
-- 
2.43.0


From 2c5e256d5d603975cb7dfe96d73697b94e80c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 34/70] fix: convert rotations with a phase of zero to
 PennyLane

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index f1c0699..94c1634 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -119,7 +119,7 @@ def extract_ops_from_circuital(
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-                                               if x.phase
+                                               if x.phase is not None
                                                else []
                                                for x in gates]
 
-- 
2.43.0


From e24a7d5b17ced906adcf70721b3313a7b2730b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 35/70] fix: keep the adjoint of gates when converting to
 PennyLane

S and T daggers were exported as S and T.
---
 lambeq/backend/pennylane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 94c1634..cebfdd3 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -115,7 +115,8 @@ def extract_ops_from_circuital(
         The wires/qubits to apply the operation to.
 
     """
-    ops = [OP_MAP[x.gtype] for x in gates]
+    ops = [qml.adjoint(OP_MAP[x.gtype]) if x.dagger else OP_MAP[x.gtype]
+           for x in gates]
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-- 
2.43.0


From 895e8e777637acbd1c704c546ba9c6c4b4becf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 36/70] fix: evaluate PennyLane circuits with scaled symbols

The symbols of a circuit are looked up without their scale, for example
for the phase of the dagger of a parametrised rotation.
---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index cebfdd3..ba29550 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -136,7 +136,7 @@ def extract_ops_from_circuital(
         elif not isinstance(param, Symbol):
             param = torch.tensor(param)
         else:
-            symbols.add(param)
+            symbols.add(param.unscaled)
 
         remapped_params.append([param])
 
-- 
2.43.0


From 8cbc729b3800942166e48d6887d1dfe2d22d96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 37/70] fix: keep a scalar of zero when upgrading a tket
 circuit

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 9616f09..5196847 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -82,7 +82,7 @@ class Circuit(tk.Circuit):
                  scalar: float | None = None,
                  post_processing: Diagram | None = None) -> None:
         self.post_selection = dict(post_selection or {})
-        self.scalar = scalar or 1
+        self.scalar = 1 if scalar is None else scalar
         self.post_processing = (
             post_processing or Id(bit ** (n_bits - len(self.post_selection))))
         super().__init__(n_qubits, n_bits)
-- 
2.43.0


From a5aee79d260323a9392533ceebb6639450a490d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 38/70] fix: pull qubits through boxes with several controls

to_circuital took the distance of an outer control as the distance to
the inner control rather than to the controlled box, and left the width
of the controlled box unchanged.
---
 lambeq/backend/quantum.py | 50 ++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 26f9b7a..e96150a 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1390,6 +1390,25 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
         return gates, q_idx
 
+    def widen_controlled(box: Box, idx: int) -> Box:
+        """
+            Add a wire that passes through a controlled box.
+            idx - index of the new wire, relative to the start of the box.
+        """
+        assert isinstance(box, Controlled)
+        controlled, distance = box.controlled, box.distance
+
+        # The controlled box starts at `start`, and the control is on
+        # the side that `distance` tells.
+        start = max(distance, 0)
+        end = start + len(controlled.dom)
+        if start < idx < end:
+            controlled = widen_controlled(controlled, idx - start)
+        else:
+            distance += 1 if distance > 0 else -1
+
+        return Controlled(controlled, distance)
+
     def pull_qubit_through(q_idx: int,
                            gates: list[Layer],
                            dom: Ty = qubit) -> tuple[list[Layer], int]:  # noqa: E501
@@ -1420,35 +1439,8 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
             else:
                 if isinstance(gate_layer.box, Controlled):
-                    gate_qubits = [len(gate_layer.left) + j
-                                   for j in range(len(gate_layer.box.dom))]
-
-                    # Initial control qubit box
-                    dists = [0]
-                    curr_box: Box | Controlled = gate_layer.box
-                    while isinstance(curr_box, Controlled):
-                        # Compute relative index control qubits
-                        dists.append(curr_box.distance + sum(dists))
-                        curr_box = curr_box.controlled
-
-                    prev_pos = -1 * min(dists) + gate_qubits[0]
-                    curr_box = gate_layer.box
-
-                    while isinstance(curr_box, Controlled):
-                        curr_pos = prev_pos + curr_box.distance
-                        if prev_pos < q_idx and q_idx <= curr_pos:
-                            curr_box.distance = curr_box.distance + 1
-
-                        elif q_idx <= prev_pos and q_idx > curr_pos:
-                            curr_box.distance = curr_box.distance - 1
-
-                        prev_pos = curr_pos
-                        curr_box = curr_box.controlled
-
-                    box = gate_layer.box
-
-                    box.dom = box.dom.insert(dom, q_idx - l_size)
-                    box.cod = box.cod.insert(dom, q_idx - l_size)
+                    gate_layer.box = widen_controlled(gate_layer.box,
+                                                      q_idx - l_size)
                     new_gates.append(gate_layer)
 
                 if isinstance(gate_layer.box, Swap):
-- 
2.43.0


From 018133b1789d44dcf44674eb7e92029bf4a85cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 39/70] fix: a circuit with gates after a post-selection is not
 circuital

Only gates between two post-selections were noticed, so a gate after the
last one was exported to tket and PennyLane on the wrong qubit.
---
 lambeq/backend/quantum.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index e96150a..9c20e9f 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -323,16 +323,15 @@ class Diagram(tensor.Diagram):
             if len(qubit_layer.right):
                 return False
 
-        # Check there are no gates in between post-selections.
+        # Check there are no gates after the first post-selection.
         measure_idx = [i for i, layer in enumerate(layers[num_qubits:])
                        if isinstance(layer.box, (Discard, Bra))]
         if not measure_idx:
             return True
-        mmax = max(measure_idx)
         mmin = min(measure_idx)
         for i, gate in enumerate(layers[num_qubits:]):
             if not isinstance(gate.box, (Discard, Bra, Measure)):
-                if i > mmin and i < mmax:
+                if i > mmin:
                     return False
 
         return True
-- 
2.43.0


From 2bf38b4d6f480370029bb36bb7851c622caaea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 40/70] fix: export qubits initialised to one from circuital
 diagrams

---
 lambeq/backend/quantum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 9c20e9f..29eec1c 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1704,7 +1704,9 @@ def readoff_circuital(diagram: Diagram,
 
     for layer in layers:
         if isinstance(layer.box, Ket):
-            pass
+            if layer.box.bit:
+                # Backends prepare every qubit in the zero state
+                gates.append(Gate.from_box(X, len(layer.left)))
         elif isinstance(layer.box, Measure):
             qi = available_qubits[layer.left.count(qubit)]
             available_qubits.remove(qi)
-- 
2.43.0


From a7fd527e4c22d1d8e53e100c377b4bd273095845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 41/70] fix: number measured bits by wire rather than by time
 of measurement

---
 lambeq/backend/quantum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 29eec1c..68f70a4 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1725,6 +1725,10 @@ def readoff_circuital(diagram: Diagram,
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+    # Bits follow the order of the wires, not the order of measurement
+    bit_order = sorted(bitmap)
+    bitmap = {qi: bit_order.index(qi) for qi in bitmap}
+
     return CircuitInfo(total_qubits,
                        gates,
                        bitmap,
-- 
2.43.0


From 8577289b5954902f12f2d78f115be62ecc3413fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:32 +0000
Subject: [PATCH 42/70] fix: classical swaps in mixed tensor networks act on
 their own bits

---
 lambeq/backend/quantum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 68f70a4..1e9c615 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -536,8 +536,8 @@ class Diagram(tensor.Diagram):
             q_offset = list(left).count(qubit)
 
             if isinstance(box, Swap) and box.is_classical:
-                c_scan[q_offset], c_scan[q_offset + 1] = (c_scan[q_offset + 1],
-                                                          c_scan[q_offset])
+                c_scan[c_offset], c_scan[c_offset + 1] = (c_scan[c_offset + 1],
+                                                          c_scan[c_offset])
 
             elif isinstance(box, Discard):
                 tn.connect(q_scan1[q_offset], q_scan2[q_offset])
-- 
2.43.0


From effe4a32b344997227737390ea4412d0e25718a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 43/70] fix: classical boxes and bit-qubit swaps in mixed
 tensor networks

---
 lambeq/backend/quantum.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 1e9c615..45af746 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -539,6 +539,10 @@ class Diagram(tensor.Diagram):
                 c_scan[c_offset], c_scan[c_offset + 1] = (c_scan[c_offset + 1],
                                                           c_scan[c_offset])
 
+            elif isinstance(box, Swap) and bit in box.dom:
+                # Swapping a bit with a qubit keeps both orderings
+                pass
+
             elif isinstance(box, Discard):
                 tn.connect(q_scan1[q_offset], q_scan2[q_offset])
                 del q_scan1[q_offset]
@@ -575,6 +579,16 @@ class Diagram(tensor.Diagram):
                 q_scan1[q_offset:q_offset + q_dom] = q_edges1
                 q_scan2[q_offset:q_offset + q_dom] = q_edges2
 
+                nodes.append(node)
+            elif box.is_classical:
+                node = tn.Node(box.array + 0j, 'c_' + str(box))
+                n_dom = len(box.dom)
+
+                for i in range(n_dom):
+                    tn.connect(c_scan[c_offset + i], node[i])
+
+                c_scan[c_offset:c_offset + n_dom] = node[n_dom:]
+
                 nodes.append(node)
             else:
                 # Purely quantum box
-- 
2.43.0


From af71fd3a4095128ebe51c8275c1d06a414656f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 44/70] fix: from_tk outputs bits in the order of the tket
 register

---
 lambeq/backend/converters/tk.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 5196847..39f77c7 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -339,6 +339,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
 
     circuit = Ket(*(0, ) * n_qubits).to_diagram()
     bras = {}
+    bit_indices = {}
     for tk_gate in tk_circ.get_commands():
         if tk_gate.op.type.name == 'Measure':
             offset: int = tk_gate.qubits[0].index[0]
@@ -346,6 +347,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
             if bit_index in tk_circ.post_selection:
                 bras[offset] = tk_circ.post_selection[bit_index]
                 continue  # post selection happens at the end
+            bit_indices[offset] = bit_index
             left = circuit.cod[:offset]
             right = circuit.cod[offset + 1:]
             circuit = circuit >> left @ Measure() @ right
@@ -358,6 +360,11 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
         Bra(bras[i]) if i in bras
         else Discard() if x == qubit else Id(bit)
         for i, x in enumerate(circuit.cod)))
+    # Output the bits in the order of the tket register
+    bits = [bit_indices[i] for i in sorted(bit_indices)]
+    if bits != sorted(bits):
+        circuit = circuit.permuted(
+            sorted(range(len(bits)), key=bits.__getitem__))
     if tk_circ.scalar != 1:
         circuit = circuit @ Scalar(np.sqrt(abs(tk_circ.scalar)))
     return circuit >> tk_circ.post_processing  # type: ignore [return-value]
-- 
2.43.0


From 389bd6a47466629192497d18c18047f4c119b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:21 +0000
Subject: [PATCH 45/70] fix: export conjugated S and T gates as their adjoints

---
 lambeq/backend/quantum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 45af746..6440800 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1604,6 +1604,10 @@ class Gate:
             dagger = True
             gtype = box.name.split('(')[0]
 
+        if gtype in ('S', 'T') and box.z % 2:
+            # The conjugate of a diagonal gate is its adjoint
+            dagger = not dagger
+
         if isinstance(box, (Rx, Ry, Rz)):
             phase = box.phase
             if use_sympy and isinstance(box.phase, Symbol):
-- 
2.43.0


From 00355c60443b301cd64cd743c4e809fe215b3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:58 +0000
Subject: [PATCH 46/70] fix: post-selected values and scalars of mixed
 PennyLane circuits

---
 lambeq/backend/pennylane.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index ba29550..a482a59 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -410,8 +410,9 @@ class PennyLaneCircuit:
         states = self._circuit(params)
 
         if self._mixed:
-            # Select the all-zeros subsystem
-            return states[0][0]
+            # Select the post-selected subsystem
+            index = int(''.join(map(str, self._post_selection.values())), 2)
+            return states[index][index] * abs(self._scale) ** 2
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-- 
2.43.0


From a7a97895840110b489feef9d92d79df534e047e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:30 +0000
Subject: [PATCH 47/70] fix: PennyLane probabilities of circuits with complex
 scalars

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a482a59..1f158df 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -416,7 +416,7 @@ class PennyLaneCircuit:
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-        post_selected_states *= (self._scale ** 2 if self._probabilities
+        post_selected_states *= (abs(self._scale) ** 2 if self._probabilities
                                  else self._scale)
 
         if post_selected_states.shape[0] == 1:
-- 
2.43.0


From c17512393cd129d1e0ec15a25ed36a7f567eb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:11 +0000
Subject: [PATCH 48/70] fix: tensor of cups and caps on wires of dimension
 above two

---
 lambeq/backend/tensor.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index ea34e2e..c53e768 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -454,10 +454,7 @@ class Cap(grammar.Cap, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).reshape(-1)
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
@@ -495,10 +492,7 @@ class Cup(grammar.Cup, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).reshape(-1)
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
-- 
2.43.0


From 92aec715df4ba52c0729733c1f24af3075416a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:15 +0000
Subject: [PATCH 49/70] fix: boundary of reversed slices of a diagram

---
 lambeq/backend/grammar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index aa560f5..1c1f587 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1002,8 +1002,10 @@ class Diagram(Entity):
     def __getitem__(self, key: int | slice) -> Self:
         if isinstance(key, slice):
             if key.step == -1:
-                layers = [layer.dagger() for layer in self.layers[key]]
-                return type(self)(self.cod, self.dom, layers)
+                if key.start is None and key.stop is None:
+                    return self.dagger()
+                start, stop, _ = key.indices(len(self))
+                return self[stop + 1:max(start, stop) + 1].dagger()
             if (key.step or 1) != 1:
                 raise IndexError
             layers = self.layers[key]
-- 
2.43.0


From c09aaabc5c339cceef621f9dc73504c43d0ee92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:28 +0000
Subject: [PATCH 50/70] fix: pregroup normal form of diagrams with a domain

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 1c1f587..f6b337c 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1179,7 +1179,7 @@ class Diagram(Entity):
         """
 
         words = Id()
-        is_pregroup = True
+        is_pregroup = not self.dom
 
         for _, box, right in self:
             if isinstance(box, Word):
-- 
2.43.0


From e5c8a4cf5756888971a52cd1ceb023110c2f6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:28 +0000
Subject: [PATCH 51/70] fix: snake removal changed the type of a wire through a
 reversed cap

---
 lambeq/backend/snake_removal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/backend/snake_removal.py b/lambeq/backend/snake_removal.py
index 346802e..b7112ab 100644
--- a/lambeq/backend/snake_removal.py
+++ b/lambeq/backend/snake_removal.py
@@ -116,6 +116,11 @@ def snake_removal(diagram: Diagram, left: bool = False) -> Iterator[Diagram]:
                                     and diagram.offsets[cup] != wire))
                 if not_yankable:
                     continue
+                # The straightened wire needs to keep its type.
+                start = diagram.boxes[cup].dom[int(not left_snake)]
+                end = diagram.boxes[cap].cod[int(left_snake)]
+                if start != end:
+                    continue
                 return cup, cap, obstructions, left_snake
         return None
 
-- 
2.43.0


From ac78f240e5d8752ab388a99d6023964ac7f27d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:27 +0000
Subject: [PATCH 52/70] fix: honour --root_categories when bobcat is selected
 explicitly

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index a785d90..595cd96 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -442,7 +442,7 @@ class ParserModule(CLIModule):
             read_sents = reader.sentences2diagrams(sentences,
                                                    tokenised=cl_args.tokenise)
             return [sent for sent in read_sents if sent is not None]
-        elif cl_args.parser is not None:
+        elif cl_args.parser not in (None, 'bobcat'):
             parser = AVAILABLE_PARSERS[cl_args.parser]()
         else:
             parser = AVAILABLE_PARSERS['bobcat'](
-- 
2.43.0


From aadc887c233f1ff2301f8748a0b7c1ed4ce7ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:48 +0000
Subject: [PATCH 53/70] fix: use the documented defaults when an ansatz is
 given without options

---
 lambeq/cli.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 595cd96..1b1c460 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -81,6 +81,15 @@ DEFAULT_ARG_VALUES: dict[str, str] = {
     'mode': 'string-diagram'
 }
 
+DEFAULT_ANSATZ_OPTIONS: dict[str, int] = {
+    'dim_n': 2,
+    'dim_s': 2,
+    'n_layers': 2,
+    'n_single_qubit_params': 3,
+    'bond_dim': 3,
+    'max_order': 3
+}
+
 
 class ArgumentList:
     """List of arguments of type key=value to pass to argparse.
@@ -304,12 +313,8 @@ def prepare_parser() -> argparse.ArgumentParser:
             choices=AVAILABLE_ANSATZE.keys(),
             help='Ansatz to be used. This determines if the result will be a '
                  'quantum circuit or a tensor network.')
-    ansatz_arglist = ArgumentList([('dim_n', int, 2),
-                                   ('dim_s', int, 2),
-                                   ('n_layers', int, 2),
-                                   ('n_single_qubit_params', int, 3),
-                                   ('bond_dim', int, 3),
-                                   ('max_order', int, 3)])
+    ansatz_arglist = ArgumentList([
+        (key, int, value) for key, value in DEFAULT_ANSATZ_OPTIONS.items()])
 
     ansatz_group.add_argument(
             '-n',
@@ -491,14 +496,15 @@ class AnsatzModule(CLIModule):
         S = lambeq.core.types.AtomicType.SENTENCE
         if cl_args.ansatz is None:
             return module_input
-        n_dim = cl_args.ansatz_options['dim_n']
-        s_dim = cl_args.ansatz_options['dim_s']
+        ansatz_options = {**DEFAULT_ANSATZ_OPTIONS, **cl_args.ansatz_options}
+        n_dim = ansatz_options['dim_n']
+        s_dim = ansatz_options['dim_s']
 
         ansatz_type: type[BaseAnsatz]
         ansatz_type = AVAILABLE_ANSATZE[cl_args.ansatz.casefold()]
 
         supported_args, *_ = inspect.getfullargspec(ansatz_type.__init__)
-        remaining_args = {k: v for k, v in cl_args.ansatz_options.items()
+        remaining_args = {k: v for k, v in ansatz_options.items()
                           if k in supported_args}
 
         ansatz: BaseAnsatz
-- 
2.43.0


From ba7c1941805a418c5e9fd54188692f0ec1caa813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:48 +0000
Subject: [PATCH 54/70] fix: honour the mode stored in a file of arguments

---
 lambeq/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 1b1c460..0a3dab3 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -618,6 +618,8 @@ class DiagramSaveModule(CLIModule):
 
 def main() -> None:
     parser = prepare_parser()
+    # The defaults are filled in below, where they do not hide stored values.
+    parser.set_defaults(**dict.fromkeys(DEFAULT_ARG_VALUES))
     cl_args = parser.parse_args()
     if cl_args.load_args is not None:
         saved_args = yaml.load(open(cl_args.load_args, 'r'),
-- 
2.43.0


From 7bbeab16f21c9d3a1cef801f81fe10167523ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:01 +0000
Subject: [PATCH 55/70] fix: reject JSON output of diagrams before parsing

---
 lambeq/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 0a3dab3..2e95596 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -396,6 +396,10 @@ def validate_args(cl_args: argparse.Namespace) -> None:
                                  f'{cl_args.reader} reader does not return '
                                  'these formats. Use pickle or image '
                                  'format or use a different reader/parser.')
+            if cl_args.output_format == 'json':
+                raise NotImplementedError('JSON output is currently disabled '
+                                          'for diagrams. Use option `pickle` '
+                                          'instead.')
 
 
 class CLIModule(ABC):
-- 
2.43.0


From d3726bfef9a3ab1c0bfcaf4cf0b3b373b10aeea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:51 +0000
Subject: [PATCH 56/70] fix: draw CCG trees with ASCII characters only when
 asked to

---
 lambeq/text2diagram/ccg_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index e611c2c..d049eba 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -318,11 +318,11 @@ class CCGTree:
         ASCII_CHAR_SET = {
             'HEAVY_LINE': '=',
             'LINE': '-',
-            'BAR': '│',
+            'BAR': '|',
             'SUCH_THAT': '<-',
-            'JOINT': '├',
+            'JOINT': '|',
             'LEFT_ARROW': '<-',
-            'CORNER': '└'
+            'CORNER': '`'
         }
 
         if use_ascii:
-- 
2.43.0


From 3ecdc831677fd8dd4f2621caddbce78a1b18c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:51 +0000
Subject: [PATCH 57/70] fix: draw pregroup diagrams with ASCII characters only
 when asked to

---
 lambeq/backend/drawing/text_printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/text_printer.py b/lambeq/backend/drawing/text_printer.py
index aef8711..cca91d6 100644
--- a/lambeq/backend/drawing/text_printer.py
+++ b/lambeq/backend/drawing/text_printer.py
@@ -56,8 +56,8 @@ UNICODE_CHAR_SET: dict[str, str] = {
 
 ASCII_CHAR_SET: dict[str, str] = {
     'BAR': '|',
-    'TOP_R_CORNER': chr(160),
-    'TOP_L_CORNER': chr(160),
+    'TOP_R_CORNER': ' ',
+    'TOP_L_CORNER': ' ',
     'BOTTOM_L_CORNER': '\\',
     'BOTTOM_R_CORNER': '/',
     'LINE': '_',
-- 
2.43.0


From 323611d46d6de49c02271abd496eb3582f0ef225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:35 +0000
Subject: [PATCH 58/70] fix: draw measurements when draw_box_labels is given

---
 lambeq/backend/drawing/drawing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/drawing.py b/lambeq/backend/drawing/drawing.py
index d8e3c46..978bfe3 100644
--- a/lambeq/backend/drawing/drawing.py
+++ b/lambeq/backend/drawing/drawing.py
@@ -682,8 +682,7 @@ def _draw_measure(backend: DrawingBackend,
     backend = _draw_box(backend,
                         drawable_diagram,
                         drawable_box,
-                        draw_box_labels=False,
-                        **params)
+                        **{**params, 'draw_box_labels': False})
 
     i, j = drawable_box.x, drawable_box.y
     backend.draw_wire((i - .15, j - .1), (i, j + .1), bend_in=True,
-- 
2.43.0


From c26b83d5c7e6f8cdeb5f33a64950284a9c6de2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:35 +0000
Subject: [PATCH 59/70] fix: draw diagrams with frames and no output wires

---
 lambeq/backend/drawing/drawable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index ad792a1..3df3b95 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -1242,6 +1242,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             floating_boxes,
             key=lambda b: b.get_x_lims(self)[0]
         )
+        if not floating_boxes:
+            return
+
         box_start = (rightmost_edge + BOX_SPACING
                      if rightmost_edge is not None
                      else floating_boxes[0].get_x_lims(self)[0])
-- 
2.43.0


From cd3f040e3df29e26c1f02b79d43d1e4d9681caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:35 +0000
Subject: [PATCH 60/70] fix: boxes placed on wireless layers were drawn on top
 of each other

---
 lambeq/backend/drawing/drawable.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 3df3b95..9ea7462 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -435,12 +435,11 @@ class DrawableDiagram:
             The x and y coordinates of the box.
         """
 
-        if not scan:
-            return 0, 0
-
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-        if not box.dom:
+        if not scan:
+            x: float = 0
+        elif not box.dom:
             if not off:
                 x = self.wire_endpoints[scan[0]].x - half_width
             elif off == len(scan):
@@ -788,12 +787,11 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         """Determines x and y coords for a new box.
         Modifies x coordinates of existing nodes to make space."""
 
-        if not scan:
-            return 0, 0
-
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-        if not box.dom:
+        if not scan:
+            x: float = 0
+        elif not box.dom:
             if not off:
                 x = self.wire_endpoints[scan[0]].x - half_width
             elif off == len(scan):
-- 
2.43.0


From e76365af774bb760fd304a642741bdec2eb4277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:35 +0000
Subject: [PATCH 61/70] fix: draw diagrams without boxes and wires

---
 lambeq/backend/drawing/drawable.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 9ea7462..952e603 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -487,6 +487,9 @@ class DrawableDiagram:
         avoid precomputing the diagram's height.
         """
 
+        if not self.boxes and not self.wire_endpoints:
+            return
+
         min_x = min(
             [node.x for node in self.boxes + self.wire_endpoints])
 
@@ -574,6 +577,9 @@ class DrawableDiagram:
 
         """
 
+        if not self.boxes and not self.wire_endpoints:
+            return
+
         min_x = min([node.x for node in self.boxes + self.wire_endpoints])
         min_y = min([node.y for node in self.boxes + self.wire_endpoints])
 
@@ -755,7 +761,7 @@ class DrawablePregroup(DrawableDiagram):
             for i in range(l_track, r_track + 1):
                 depth_map[i] = y - VSPACE
 
-        min_y = min(depth_map)
+        min_y = min(depth_map, default=0.0)
 
         for i, obj in enumerate(diagram.cod):
             wire_end = WireEndpoint(WireEndpointType.OUTPUT,
@@ -1053,6 +1059,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             The bounds of the drawable.
         """
 
+        if not self.boxes and not self.wire_endpoints:
+            return 0.0, 0.0, 0.0, 0.0
+
         # Iterate over boxes
         all_xs = [wire.x for wire in self.wire_endpoints]
         all_ys = [obj.y for obj in self.wire_endpoints]
@@ -1563,6 +1572,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
 
         """
 
+        if not self.boxes and not self.wire_endpoints:
+            return
+
         min_x = min([node.x for node in self.boxes + self.wire_endpoints])
         min_y = min([node.y for node in self.boxes + self.wire_endpoints])
 
-- 
2.43.0


From e6fc935543dd7752a05ccbcf9e3a87ee15e2d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:09 +0000
Subject: [PATCH 62/70] fix: colours of wires in diagrams with frames follow
 the wires

---
 lambeq/backend/drawing/drawable.py | 31 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 952e603..1fffdcf 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -870,7 +870,7 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         node = BoxNode(box, x_pos, y_pos)
 
         box_ind = self._add_boxnode(node)
-        num_input = len(box.dom)
+        num_input = off + len(box.dom)
         input_nouns = input_nouns or []
         for i in range(num_input):
             if i < len(input_nouns):
@@ -908,21 +908,20 @@ class DrawableDiagramWithFrames(DrawableDiagram):
                 input_nouns[dom_idx_1], input_nouns[dom_idx_2] = (
                     input_nouns[dom_idx_2], input_nouns[dom_idx_1]
                 )
-        elif isinstance(node.obj, grammar.Spider):
-            # If Spider, expand or shrink the noun_ids based on type
-            if len(box.dom) == 1 and len(box.cod) > 1:
-                dom_noun = (input_nouns[off] if input_nouns
-                            and off < len(input_nouns)
-                            else self.get_noun_id())
-                expanded_colors = [dom_noun] * len(box.cod)
-                input_nouns = (input_nouns[:off] + expanded_colors
-                               + input_nouns[off + len(box.dom):])
-            elif len(box.dom) > 1 and len(box.cod) == 1:
-                cod_noun = (input_nouns[off] if input_nouns
-                            and off < len(input_nouns)
-                            else self.get_noun_id())
-                input_nouns = (input_nouns[:off] + [cod_noun]
-                               + input_nouns[off + len(box.dom):])
+        elif (isinstance(node.obj, grammar.Spider)
+              and len(box.dom) == 1 and len(box.cod) > 1):
+            # If Spider, copy the noun_id to all of its outputs
+            expanded_colors = [input_nouns[off]] * len(box.cod)
+            input_nouns = (input_nouns[:off] + expanded_colors
+                           + input_nouns[off + len(box.dom):])
+        elif len(box.dom) != len(box.cod):
+            # Keep the noun_ids aligned with the wires of the diagram
+            box_nouns = input_nouns[off:off + min(len(box.dom),
+                                                  len(box.cod))]
+            while len(box_nouns) < len(box.cod):
+                box_nouns.append(self.get_noun_id())
+            input_nouns = (input_nouns[:off] + box_nouns
+                           + input_nouns[off + len(box.dom):])
 
         num_output = off + len(box.cod)
         for i in range(num_output):
-- 
2.43.0


From 1b4e1fcc06992c922a8ed6b1cb1adfde8bee9f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:01 +0000
Subject: [PATCH 63/70] fix: TikZ edges referred to labels defined after them

---
 lambeq/backend/drawing/tikz_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/tikz_backend.py b/lambeq/backend/drawing/tikz_backend.py
index 2eb5477..4bb46ea 100644
--- a/lambeq/backend/drawing/tikz_backend.py
+++ b/lambeq/backend/drawing/tikz_backend.py
@@ -73,7 +73,7 @@ class TikzBackend(DrawingBackend):
                  options: str | None = None) -> int:
         """ Add a node to the tikz picture, return its unique id. """
 
-        node = max(self.nodes.values()) + 1 if self.nodes else 1
+        node = len(self.nodelayer) + len(self.label_layer) + 1
         text = '' if text is None else text
         if is_label:
             self.label_layer.append(
@@ -83,7 +83,8 @@ class TikzBackend(DrawingBackend):
             self.nodelayer.append(
                 f'\\node [{options or ""}] ({node}) '
                 f'at ({x}, {y}) {{{text}}};\n')
-        self.nodes.update({(x, y): node})
+            # Labels are defined after the edges, which can't refer to them
+            self.nodes.update({(x, y): node})
 
         self.max_width = max(self.max_width, x)
 
-- 
2.43.0


From 785e386e4a7f1ba855732e596e3053f300c4a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:01 +0000
Subject: [PATCH 64/70] fix: honour the aspect option when drawing diagrams

---
 lambeq/backend/drawing/drawing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/drawing/drawing.py b/lambeq/backend/drawing/drawing.py
index 978bfe3..0c553f6 100644
--- a/lambeq/backend/drawing/drawing.py
+++ b/lambeq/backend/drawing/drawing.py
@@ -174,7 +174,8 @@ def draw(diagram: Diagram, **params) -> None:
         baseline=0,
         tikz_options=params.get('tikz_options', None),
         show=params.get('show', True),
-        margins=params.get('margins', DEFAULT_MARGINS))
+        margins=params.get('margins', DEFAULT_MARGINS),
+        **{k: params[k] for k in ('aspect',) if k in params})
 
 
 def draw_pregroup(diagram: Diagram, **params) -> None:
-- 
2.43.0


From 2163570e38ab4f2ec8bd3b70421a4b35ca5bad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:25 +0000
Subject: [PATCH 65/70] fix: TikZ styles of wires of one colour overrode each
 other

The looseness of a leg and the arrow of a measurement are options of
the edge rather than of the style that all wires of the colour share.
---
 lambeq/backend/drawing/tikz_backend.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/drawing/tikz_backend.py b/lambeq/backend/drawing/tikz_backend.py
index 4bb46ea..926fb4a 100644
--- a/lambeq/backend/drawing/tikz_backend.py
+++ b/lambeq/backend/drawing/tikz_backend.py
@@ -179,10 +179,6 @@ class TikzBackend(DrawingBackend):
                                if color != '#000000' else 'black_wire')
             wire_style = (f'\\tikzstyle{{{wire_style_name}}}='
                           f'[-, draw={self.format_wire_color(color)}')
-
-            # Concatenate additional styles like looseness if present
-            if style:
-                wire_style += f', {style}'
             wire_style += f', line width={self.wire_linewidth}pt]\n'
 
             if wire_style not in self.edge_styles:
@@ -192,8 +188,10 @@ class TikzBackend(DrawingBackend):
         else:
             wire_options = f'-, draw={self.format_wire_color(color)}'
             wire_options += f', line width={self.wire_linewidth}pt'
-            if style:
-                wire_options += f', {style}'
+
+        # Concatenate additional styles like looseness if present
+        if style:
+            wire_options += f', {style}'
         cmd = (
             '\\draw [in={}, out={}{}] '
             '({}.center) to ({}.center);\n')
-- 
2.43.0


From af54ac367c3b75c8d593f668e4d5ac6fded0d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:31 +0000
Subject: [PATCH 66/70] fix: rule symbols of generalised compositions were not
 ASCII in ASCII derivations

---
 lambeq/text2diagram/ccg_tree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index d049eba..42fd77c 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -270,7 +270,8 @@ class CCGTree:
             for i in range(len(lines)):
                 lines[i] = f'{lines[i]:{" "}^{target_len}}'
 
-        rule_symbol = self.rule.symbol
+        rule_symbol = self.rule.symbol.replace(
+            'ⁿ', chr_set['SUPERSCRIPT_N'])
         lines.append(f'{rule_symbol:{chr_set["LINE"]}>{target_len}}')
         lines.append(f'{output_type:{" "}^{target_len}}')
 
@@ -312,7 +313,8 @@ class CCGTree:
             'SUCH_THAT': '∋',
             'JOINT': '├',
             'LEFT_ARROW': '←',
-            'CORNER': '└'
+            'CORNER': '└',
+            'SUPERSCRIPT_N': 'ⁿ'
         }
 
         ASCII_CHAR_SET = {
@@ -322,7 +324,8 @@ class CCGTree:
             'SUCH_THAT': '<-',
             'JOINT': '|',
             'LEFT_ARROW': '<-',
-            'CORNER': '`'
+            'CORNER': '`',
+            'SUPERSCRIPT_N': '^n'
         }
 
         if use_ascii:
-- 
2.43.0


From e00e929bbba60f8c19e19e4b6cd44565dde7af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:17 +0000
Subject: [PATCH 67/70] fix: wires of text drawings were beside their types
 when words have odd lengths and types even ones

---
 lambeq/backend/drawing/text_printer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/text_printer.py b/lambeq/backend/drawing/text_printer.py
index cca91d6..695c2c3 100644
--- a/lambeq/backend/drawing/text_printer.py
+++ b/lambeq/backend/drawing/text_printer.py
@@ -149,14 +149,16 @@ class PregroupTextPrinter(DiagramTextPrinter):
             type_str = type_sep.join(types)
             width = max(len(word), len(type_str))
 
-            last_pos = len(type_line) + (width - len(type_str)) // 2
+            # `str.center` may put the odd space on either side
+            centered_types = type_str.center(width)
+            last_pos = len(type_line) + centered_types.find(type_str)
             for t in types:
                 pos.append(last_pos + (len(t) - 1) // 2)
                 last_pos += len(t) + len(type_sep)
 
             word_line += word.center(width)
             underlines += self.chr_set['LINE'] * width
-            type_line += type_str.center(width)
+            type_line += centered_types
 
         # process layers
         scan = [*range(len(pos))]
-- 
2.43.0


From bbc37d5b06a686589d5833c50747dca08eafe01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:45 +0000
Subject: [PATCH 68/70] fix: RemoveSwapsRewriter failed on words with two cups
 of their own side by side

---
 lambeq/rewrite/rewrite_diagram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index e3f7931..11d9420 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -332,8 +332,8 @@ class RemoveSwapsRewriter(DiagramRewriter):
             for mor in morphisms:
                 if (isinstance(mor.morphism, Cup) and mor.start in rng
                         and mor.end in rng):
-                    del scan[mor.start - wrd.offset:
-                             mor.start - wrd.offset + 2]
+                    scan.remove(mor.start)
+                    scan.remove(mor.end)
                     mor.deleted = True
 
             if len(scan) == len(rng):
-- 
2.43.0


From 885110d1dfcd55f0013b149e00a85da18efa1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:26 +0000
Subject: [PATCH 69/70] fix: rules added to a rewriter were not applied to
 boxes it had seen before

---
 lambeq/rewrite/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 636d88f..5355f61 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -400,14 +400,14 @@ class Rewriter:
             names. If omitted, all the default rules are used.
 
         """
+        self.apply_rewrites = Functor(target_category=grammar,
+                                      ob=self._ob,
+                                      ar=self._ar)
         if rules is None:
             self.rules: list[RewriteRule] = [*self._default_rules.values()]
         else:
             self.rules = []
             self.add_rules(*rules)
-        self.apply_rewrites = Functor(target_category=grammar,
-                                      ob=self._ob,
-                                      ar=self._ar)
 
     @classmethod
     def available_rules(cls) -> list[str]:
@@ -416,6 +416,8 @@ class Rewriter:
 
     def add_rules(self, *rules: RewriteRule | str) -> None:
         """Add rules to this rewriter."""
+        # Boxes seen so far may be rewritten differently by the new rules
+        self.apply_rewrites.ar_cache.clear()
         for rule in rules:
             if isinstance(rule, RewriteRule):
                 self.rules.append(rule)
-- 
2.43.0


From d4a75adf2f324912b96ec507593b9a83c30e5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:20 +0000
Subject: [PATCH 70/70] fix: Ty.insert at a negative index dropped an atomic
 type

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index f6b337c..511b71e 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -257,7 +257,7 @@ class Ty(Entity):
                 return other @ self
             elif index == len(self):
                 return self @ other
-            objects = self.objects.copy()
+            objects = [*self]
             objects = objects[:index] + [*other] + objects[index:]
             return self._fromiter(objects)
 
-- 
2.43.0

