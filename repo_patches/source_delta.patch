From cfa7b4aefcce1232eb0adf0fa33ab6f73efe81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 01/17] fix: compose <YEH, HAMZA ABOVE> and <AE, HAMZA ABOVE>
 in the Arabic NFC grammar

---
 nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto b/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
index 74c913d..e231d0b 100644
--- a/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
+++ b/nisaba/scripts/abjad_alphabet/data/Arab/nfc.textproto
@@ -54,6 +54,16 @@ item {
   to_uname: "HEH GOAL WITH HAMZA ABOVE" to_raw: "ۂ"
 }
 
+item {
+  uname: ["YEH", "HAMZA ABOVE"] raw: "ئ"
+  to_uname: "YEH WITH HAMZA ABOVE" to_raw: "ئ"
+}
+
+item {
+  uname: ["AE", "HAMZA ABOVE"] raw: "ۀ"
+  to_uname: "HEH WITH YEH ABOVE" to_raw: "ۀ"
+}
+
 item {
   uname: ["YEH BARREE", "HAMZA ABOVE"] raw: "ۓ"
   to_uname: "YEH BARREE WITH HAMZA ABOVE" to_raw: "ۓ"
-- 
2.43.0


From af6c2f3b327baf65f4c6f2751e73913c9dc06250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 02/17] fix: escape the text given to AcceptText, as
 ApplyOnText does

---
 nisaba/scripts/utils/far.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/far.py b/nisaba/scripts/utils/far.py
index c114040..eaaa05a 100644
--- a/nisaba/scripts/utils/far.py
+++ b/nisaba/scripts/utils/far.py
@@ -79,7 +79,7 @@ class Far:
       """
       if not self._fst.properties(pynini.ACCEPTOR, True):
         warnings.warn('Underlying WFST is not an acceptor.', RuntimeWarning)
-      lattice = text @ self._fst
+      lattice = pynini.escape(text) @ self._fst
       return lattice.start() != pynini.NO_STATE_ID
 
   def __init__(self, path_to_far: os.PathLike[str]) -> None:
-- 
2.43.0


From 2065af8660b427d7a5ad7d4fdf95af643c4e59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 03/17] fix: keep the /a/ of the diphthongs in A_TO_EC, so that
 Gujarati ai and au transliterate

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 00796a7..ee48228 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -40,12 +40,13 @@ ph = psa.PHONEME_INVENTORY
 # Vowels
 
 # TODO: Convert this constant to a function where duration and diphthong
-# context are passed as arguments, and remove the recovery rule.
+# context are passed as arguments, and remove the recovery rules.
 # The current rule rewrites all /a/ to /ə/ including the diphthongs like /ai/,
-# and recovers long a with /ə:/ -> /a:/ but not the diphthongs.
+# and recovers long a with /ə:/ -> /a:/ and the diphthongs with /ə+/ -> /a+/.
 A_TO_EC = (
     rw.rewrite(ph.A, ph.EC) @
-    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH)
+    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH) @
+    rw.rewrite(ph.EC + psa.mod.CMB.ph, ph.A + psa.mod.CMB.ph)
 )
 A_AE = rw.reassign(gr.A_I, ph.A, ph.AE)
 
-- 
2.43.0


From a00698054dcb7a3fa82d5d43fcbd355adc4dd233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 04/17] fix: geminate the whole affricate after an addak

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index ee48228..f2a0b04 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -239,8 +239,14 @@ H_ASP = rw.reassign(
     gr.H, ph.H, ph.ASP, (ph.M | ph.NI | ph.VU | ph.L | ph.R)
 )
 
-ADDAK = rw.rewrite_ls(
-    [(char.ph, char.ph + char.ph) for char in iso.ONSET_CONSONANT], ph.SIL
+# Since /t/ and /d/ are prefixes of the affricates, the rewrite can also geminate
+# only the stop of the affricate. The last two rules restore the affricate.
+ADDAK = (
+    rw.rewrite_ls(
+        [(char.ph, char.ph + char.ph) for char in iso.ONSET_CONSONANT], ph.SIL
+    ) @
+    rw.rewrite(ph.T + ph.T_SH, ph.T_SH + ph.T_SH, ph.SIL) @
+    rw.rewrite(ph.D + ph.D_ZH, ph.D_ZH + ph.D_ZH, ph.SIL)
 )
 
 AUM_AON = rw.reassign(gr.U_I, ph.U, ph.O, following=(gr.ANS + al.SKIP + al.EOW))
-- 
2.43.0


From 41df94383bd5cae6e53231ca782b553d809e14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 05/17] fix: keep the length of vocalic vowels in VOCALIC_TR_I

---
 nisaba/scripts/natural_translit/brahmic/romanizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/romanizer.py b/nisaba/scripts/natural_translit/brahmic/romanizer.py
index 6f9084a..794b699 100644
--- a/nisaba/scripts/natural_translit/brahmic/romanizer.py
+++ b/nisaba/scripts/natural_translit/brahmic/romanizer.py
@@ -74,7 +74,7 @@ def _transliterate_vocalic(
   """Transliterates all vowels in vocalics as vcl_tr."""
   return fl.FstList.make(
       rw.rewrite,
-      (ph.SYL + ph.DURH, vcl_l, gr.VOCALIC),
+      ((ph.VOWEL | ph.SYL) + ph.DURH, vcl_l, gr.VOCALIC),
       (ph.VOWEL | ph.SYL, vcl, gr.VOCALIC),
   ).compose()
 
-- 
2.43.0


From 1afe285d662b1336a89e3ced4e51dd845629fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 06/17] fix: apply the geminate rules of Tamil and Malayalam
 NAT to transliterated consonants

---
 nisaba/scripts/natural_translit/language_params/ml.py | 6 +++---
 nisaba/scripts/natural_translit/language_params/ta.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nisaba/scripts/natural_translit/language_params/ml.py b/nisaba/scripts/natural_translit/language_params/ml.py
index 0c18da5..4dc065a 100644
--- a/nisaba/scripts/natural_translit/language_params/ml.py
+++ b/nisaba/scripts/natural_translit/language_params/ml.py
@@ -54,9 +54,6 @@ _TXN_OPS = fl.FstList(
 _NAT_OPS = fl.FstList(
     romanizer.EN_LIKE_LONG,
     romanizer.TI_TH,
-    romanizer.CC_TO_CCH,
-    romanizer.CCH_TO_CHH,
-    romanizer.S_SHSH_TO_SSH,
     romanizer.SIBV_TO_SIBW,
     romanizer.NY_N,
     romanizer.NY_GN,
@@ -86,6 +83,9 @@ def iso_to_nat() -> fl.FstList:
       _NAT_OPS,
       romanizer.TXN_TO_PSA_COMMON,
       romanizer.TRANSLIT_BY_PSA,
+      romanizer.CC_TO_CCH,
+      romanizer.CCH_TO_CHH,
+      romanizer.S_SHSH_TO_SSH,
       ltn.print_only_ltn(),
   )
 
diff --git a/nisaba/scripts/natural_translit/language_params/ta.py b/nisaba/scripts/natural_translit/language_params/ta.py
index 12fde7c..f876faf 100644
--- a/nisaba/scripts/natural_translit/language_params/ta.py
+++ b/nisaba/scripts/natural_translit/language_params/ta.py
@@ -90,9 +90,6 @@ _NAT_OPS = fl.FstList(
     romanizer.OO_OA,
     romanizer.TI_TH,
     romanizer.TT_TR,
-    romanizer.CC_TO_CCH,
-    romanizer.CCH_TO_CHH,
-    romanizer.S_SHSH_TO_SSH,
     romanizer.SIBV_TO_SIBW,
     romanizer.NY_N,
     romanizer.NY_GN,
@@ -122,6 +119,9 @@ def iso_to_nat() -> fl.FstList:
       _NAT_OPS,
       romanizer.TXN_TO_PSA_COMMON,
       romanizer.TRANSLIT_BY_PSA,
+      romanizer.CC_TO_CCH,
+      romanizer.CCH_TO_CHH,
+      romanizer.S_SHSH_TO_SSH,
       ltn.print_only_ltn(),
   )
 
-- 
2.43.0


From 8c5394cc4d27bfc6087cdeb9b70145d0e7198b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 07/17] fix: geminate an aspirated consonant after an addak in
 one way only

---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index f2a0b04..e03fab6 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -239,11 +239,17 @@ H_ASP = rw.reassign(
     gr.H, ph.H, ph.ASP, (ph.M | ph.NI | ph.VU | ph.L | ph.R)
 )
 
+# Aspirated consonants are geminated by the rewrite of their unaspirated
+# counterpart, eg. /pʰ/ -> /ppʰ/.
 # Since /t/ and /d/ are prefixes of the affricates, the rewrite can also geminate
 # only the stop of the affricate. The last two rules restore the affricate.
 ADDAK = (
     rw.rewrite_ls(
-        [(char.ph, char.ph + char.ph) for char in iso.ONSET_CONSONANT], ph.SIL
+        [
+            (char.ph, char.ph + char.ph)
+            for char in iso.SIMPLE_CONSONANT + iso.DEAD_CONSONANT
+        ],
+        ph.SIL,
     ) @
     rw.rewrite(ph.T + ph.T_SH, ph.T_SH + ph.T_SH, ph.SIL) @
     rw.rewrite(ph.D + ph.D_ZH, ph.D_ZH + ph.D_ZH, ph.SIL)
-- 
2.43.0


From 02e1e8c601b97133f9122d7fd942954d08f0db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 08/17] fix: leave single forms of only_geminated consonants
 alone in deromanization

---
 nisaba/scripts/natural_translit/brahmic/deromanizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/deromanizer.py b/nisaba/scripts/natural_translit/brahmic/deromanizer.py
index 23fa864..483b5a7 100644
--- a/nisaba/scripts/natural_translit/brahmic/deromanizer.py
+++ b/nisaba/scripts/natural_translit/brahmic/deromanizer.py
@@ -179,7 +179,7 @@ class Deromanizer(i.Inventory):
     Eg. Tamil consonant group:
     ta.consonant {
         3: [zh_lr]
-        2: [ch, tr_rr, ...]
+        2: [ch, sh, ...]
         1: [b_p, d_t, ...]
     }
     """
@@ -261,7 +261,7 @@ class Deromanizer(i.Inventory):
     self._add_to_groups(has_aspirated, self.consonant, self.has_aspirated)
     self._add_to_groups(drops_aspirated, self.consonant, self.drops_aspirated)
     self._add_to_groups(no_aspirated, self.consonant, self.no_aspirated)
-    self._add_to_groups(only_geminated, self.consonant, self.only_geminated)
+    self._add_to_groups(only_geminated, self.only_geminated)
     self._add_to_groups(foreign, self.consonant, self.foreign)
     self._apply_by_priority(self.foreign, self.cons_foreign, self._rw_foreign)
     self._apply_by_priority(
-- 
2.43.0


From f3e8cde0bf5acf3ca5e1d0ce8922ce60284bd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:33 +0000
Subject: [PATCH 09/17] fix: the distance of two items of a list does not
 depend on their order

ValueList.distance returned negative distances for linear and cyclic lists
when the second item stands before the first.
---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 2f7a0ea..33c7719 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -398,7 +398,7 @@ class Feature(ty.Thing):
     ) -> float:
       if values1 not in self or values2 not in self:
         return Feature.ERROR_DISTANCE
-      delta = self._items.index(values2) - self._items.index(values1)
+      delta = abs(self._items.index(values2) - self._items.index(values1))
       match self.list_type:
         case Feature.ValueListType.EQUIDISTANT:
           return self.step
-- 
2.43.0


From 6a8ef8adedd5703872169f2e0893bcd91ea71b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:33 +0000
Subject: [PATCH 10/17] fix: has_feature of value lists and aspects terminates

They called value_in, which called them again, until RecursionError.
---
 nisaba/scripts/natural_translit/utils/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 33c7719..6f25c58 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -498,7 +498,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: Feature.Aspect.VALUES) -> bool:
       """Checks if the given value or one of its children is in this list."""
-      return value.is_in(self)
+      return value in self or self.set().has_feature(value)
 
     def is_in(self, obj) -> bool:
       """Checks if this list is contained within the given object."""
@@ -651,7 +651,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: VALUES) -> bool:
       """Checks if the given value or one of its children is in this aspect."""
-      return value.is_in(self)
+      return Feature.Set(self).has_feature(value)
 
     def is_applicable(self, profile: Feature.Profile) -> bool:
       """Checks if this aspect is applicable to the given profile."""
-- 
2.43.0


From 44e3f3044a481291b6cfd69a7205b676ab72f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:33 +0000
Subject: [PATCH 11/17] fix: a value list is found in iterables of its features

value_in documents that it looks at all the values in a list, but for
iterables other than sets, such as MultiProfile, it only looked for the list
itself, so Symbol.has_feature was false for every list.
---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 6f25c58..8316d35 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -1085,5 +1085,5 @@ def value_in(value: Feature.Aspect.VALUES, obj) -> bool:
       (hasattr(obj, 'has_feature') and obj.has_feature(value))
       or obj == value
       or obj in value.parent_list
-      or (isinstance(obj, Iterable) and value in Feature.Set(obj))
+      or (isinstance(obj, Iterable) and Feature.Set(obj).has_feature(value))
   )
-- 
2.43.0


From 9e6fdeb5d202277132fbf9afb54c70866dc9b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:29 +0000
Subject: [PATCH 12/17] fix: Item.accepts compares the symbol lists, not their
 numbers

---
 nisaba/scripts/natural_translit/utils/symbol.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index 6e0b214..2f467ec 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -96,15 +96,15 @@ class Item(ty.Thing):
       return (
           equivalent and self.is_expression_any() and other.is_expression_any()
       ) or not equivalent
+    # The numbers of symbol lists don't matter, lists can recur.
+    # Eg. [[a], [a, a], [a, a]] and [[a], [a, a]] are equivalent.
     self_symbols, other_symbols = self.symbols(), other.symbols()
-    self_len, other_len = len(self_symbols), len(other_symbols)
-    if (
-        not self_len
-        or self_len < other_len
-        or (equivalent and self_len != other_len)
-    ):
+    if not self_symbols:
       return False
-    return all(sym_list in self_symbols for sym_list in other_symbols)
+    return all(sym_list in self_symbols for sym_list in other_symbols) and (
+        not equivalent
+        or all(sym_list in other_symbols for sym_list in self_symbols)
+    )
 
   def is_equivalent(self, other: Item) -> bool:
     return self.accepts(other, equivalent=True)
-- 
2.43.0


From bdeda95805c81cf08a5eb77595f0d2b5ed58b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:29 +0000
Subject: [PATCH 13/17] fix: Alignment from_bos/to_eos rules don't match an
 empty context

---
 nisaba/scripts/natural_translit/utils/expression.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/expression.py b/nisaba/scripts/natural_translit/utils/expression.py
index 7a46f45..7a38dab 100644
--- a/nisaba/scripts/natural_translit/utils/expression.py
+++ b/nisaba/scripts/natural_translit/utils/expression.py
@@ -712,12 +712,14 @@ class Alignment(_BaseAlignment):
   def context_matches(
       self, preceding: _BaseAlignment, following: _BaseAlignment
   ) -> bool:
+    # An empty sequence matches everything, but it isn't a suffix or a prefix of
+    # a required context.
     return (
-        (self.from_bos and self.preceding.matches(preceding))
-        or (not self.from_bos and self.preceding.is_suffix(preceding))
+        self.preceding.is_suffix(preceding)
+        and (not self.from_bos or self.preceding.matches(preceding))
     ) and (
-        (self.to_eos and self.following.matches(following))
-        or (not self.to_eos and self.following.is_prefix(following))
+        self.following.is_prefix(following)
+        and (not self.to_eos or self.following.matches(following))
     )
 
 
-- 
2.43.0


From 0d76502b7e481674afce6a850d4a2ac50484f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:27 +0000
Subject: [PATCH 14/17] fix: lattices do not share their default FST and error
 node

---
 nisaba/scripts/natural_translit/utils/lattice.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/lattice.py b/nisaba/scripts/natural_translit/utils/lattice.py
index 8d7f1bb..06c70fe 100644
--- a/nisaba/scripts/natural_translit/utils/lattice.py
+++ b/nisaba/scripts/natural_translit/utils/lattice.py
@@ -14,6 +14,8 @@
 
 """Lattice class for building aligner FSTs."""
 
+from typing import Optional
+
 import pynini as pyn
 from nisaba.scripts.natural_translit.utils import log_op as log
 from nisaba.scripts.natural_translit.utils import type_op as ty
@@ -41,12 +43,12 @@ class Node(ty.Thing):
       text: str = '',
       x: int = -1,
       y: int = -1,
-      fst: pyn.Fst = pyn.Fst(),
+      fst: Optional[pyn.Fst] = None,
   ):
     super().__init__(alias, text)
     self.x = x
     self.y = y
-    self.fst = fst
+    self.fst = pyn.Fst() if fst is None else fst
     self.state = ty.UNASSIGNED
 
   def __str__(self):
@@ -78,19 +80,21 @@ class Lattice(ty.Thing):
       alias: str,
       width: int,
       height: int,
-      fst: pyn.Fst = pyn.Fst(),
-      error: Node = Node('error'),
+      fst: Optional[pyn.Fst] = None,
+      error: Optional[Node] = None,
       populate: bool = False,
   ):
     super().__init__(alias)
     self.text = alias
-    self.fst = fst
+    self.fst = pyn.Fst() if fst is None else fst
     self.width = width
     self.height = height
     self._nodes = [
         [self._new_node(x, y) for x in range(self.width)]
         for y in range(self.height)
     ]
+    if error is None:
+      error = Node('error', fst=self.fst)
     self.error = error
     if error.fst is not self.fst:
       error.fst = self.fst
-- 
2.43.0


From 082a9547b39b87852ea8c92044f5968b631161b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:27 +0000
Subject: [PATCH 15/17] fix: make unknown symbols of a combined inventory under
 free aliases

---
 nisaba/scripts/natural_translit/utils/symbol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index 2f467ec..45accda 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -651,6 +651,9 @@ class Symbol(Item):
     def raw_from_unknown(self, raw: str = '') -> Symbol:
       """Makes and adds a new raw symbol to the inventory from a string."""
       self.unknown_count += 1
+      # Symbols of another inventory may have been made from unknown, too.
+      while 'from_unk_' + str(self.unknown_count) in self.item_aliases:
+        self.unknown_count += 1
       alias = 'from_unk_' + str(self.unknown_count)
       name = alias + '_' + raw
       text = '<' + name + '>'
-- 
2.43.0


From 17ccd5c8b218ec528bdeddbea8d731a774bca26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:51 +0000
Subject: [PATCH 16/17] fix: read_textproto failed on items without a result

---
 nisaba/scripts/utils/unicode_strings_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index a4f45b1..4f654ba 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -163,9 +163,10 @@ def _fill_missing_raw(pb: unicode_strings_pb2.UnicodeStrings) -> None:
     None
   """
   for item in pb.item:
-    item.raw, item.to_raw = convert_item(
+    item.raw, to_raw = convert_item(
         pb.uname_prefix, pb.to_uname_prefix, item
     )
+    item.to_raw = to_raw or ''
 
 
 def read_textproto(
-- 
2.43.0


From 9309bcd0d3fa55855bc96ac230eb9194edd77a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:49 +0000
Subject: [PATCH 17/17] fix: a phoneme that an inventory doesn't add keeps its
 index and language

Adding a phoneme twice gave it the index of the phoneme added next.
---
 .../natural_translit/phonology/phonological_symbol.py      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/phonology/phonological_symbol.py b/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
index b1aaff0..1da67ba 100644
--- a/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
+++ b/nisaba/scripts/natural_translit/phonology/phonological_symbol.py
@@ -176,6 +176,7 @@ class Phon(PhonologicalSymbol):
 
     def _add_phoneme(self, phoneme: Phon) -> bool:
       """Adds a phoneme to the inventory."""
+      language, index = phoneme.language, phoneme.index
       phoneme.language = self.language
       phoneme.index = (
           Phon.ReservedIndex.PHONEME_PREFIX
@@ -183,7 +184,11 @@ class Phon(PhonologicalSymbol):
           + len(self)
           + 1
       )
-      return self._add_symbol_and_atomic(phoneme)
+      if self._add_symbol_and_atomic(phoneme):
+        return True
+      # A phoneme that isn't added keeps its place, here or in its inventory.
+      phoneme.language, phoneme.index = language, index
+      return False
 
     def add_phonemes(self, *phonemes: Phon, list_alias: str = '') -> list[Phon]:
       phs = [ph for ph in phonemes if self._add_phoneme(ph)]
-- 
2.43.0

