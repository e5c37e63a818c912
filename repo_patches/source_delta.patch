From 8e0e651b3587b7199dde8682501cbdb2876f39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:45 +0000
Subject: [PATCH 01/38] fix: compute binary and decimal lengths and logarithms
 exactly

Float logarithms gave wrong results next to powers of two and ten,
e.g. decimal_length(1000) was 3 and is_power_of_two(2**29) was False.
Binv and Boolf refused some integers because of that.
---
 discretehelpers/a/_log/log_ceil/__init__.py      | 3 +--
 discretehelpers/a/_log/log_floor/__init__.py     | 3 +--
 discretehelpers/a/_log/log_int/__init__.py       | 7 +++----
 discretehelpers/a/decimal_length/__init__.py     | 8 +++++++-
 discretehelpers/a/is_power_of_two/__init__.py    | 8 ++------
 discretehelpers/binv/a/binary_length/__init__.py | 4 +---
 6 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/discretehelpers/a/_log/log_ceil/__init__.py b/discretehelpers/a/_log/log_ceil/__init__.py
index 7a4153c..87e59d1 100644
--- a/discretehelpers/a/_log/log_ceil/__init__.py
+++ b/discretehelpers/a/_log/log_ceil/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, ceil
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_ceil(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return ceil(log2(x))
+    return (int(x) - 1).bit_length()
diff --git a/discretehelpers/a/_log/log_floor/__init__.py b/discretehelpers/a/_log/log_floor/__init__.py
index 576b3fb..26b7321 100644
--- a/discretehelpers/a/_log/log_floor/__init__.py
+++ b/discretehelpers/a/_log/log_floor/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, floor
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_floor(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return floor(log2(x))
+    return int(x).bit_length() - 1
diff --git a/discretehelpers/a/_log/log_int/__init__.py b/discretehelpers/a/_log/log_int/__init__.py
index 191e08d..db38493 100644
--- a/discretehelpers/a/_log/log_int/__init__.py
+++ b/discretehelpers/a/_log/log_int/__init__.py
@@ -1,4 +1,3 @@
-from math import log2
 from discretehelpers.a import is_natural, true_except
 from discretehelpers.ex import ArgValueError
 
@@ -10,8 +9,8 @@ def log_int(x):
         ArgValueError('not a natural number')
     )
 
-    result = log2(x)
-    if is_natural(result):
-        return int(result)
+    result = int(x).bit_length() - 1
+    if x == 1 << result:
+        return result
     else:
         raise ArgValueError('not a power of two')
diff --git a/discretehelpers/a/decimal_length/__init__.py b/discretehelpers/a/decimal_length/__init__.py
index c0eebd4..c530c73 100644
--- a/discretehelpers/a/decimal_length/__init__.py
+++ b/discretehelpers/a/decimal_length/__init__.py
@@ -10,7 +10,13 @@ def decimal_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 10)) + 1
+    n = int(n)
+    length = floor(log(n, 10)) + 1  # may be off by one, because the logarithm is a float
+    if n >= 10 ** length:
+        length += 1
+    elif n < 10 ** (length - 1):
+        length -= 1
+    return length
 
 
 class NotNaturalError(ValueError):
diff --git a/discretehelpers/a/is_power_of_two/__init__.py b/discretehelpers/a/is_power_of_two/__init__.py
index e36bdf8..310b88d 100644
--- a/discretehelpers/a/is_power_of_two/__init__.py
+++ b/discretehelpers/a/is_power_of_two/__init__.py
@@ -1,5 +1,3 @@
-from math import log
-
 from discretehelpers.a import is_natural
 
 
@@ -8,7 +6,5 @@ def is_power_of_two(n):
         return False
     if not is_natural(n):
         return False
-    log_n = log(n, 2)
-    if not is_natural(log_n):
-        return False
-    return True
+    n = int(n)
+    return n & (n - 1) == 0
diff --git a/discretehelpers/binv/a/binary_length/__init__.py b/discretehelpers/binv/a/binary_length/__init__.py
index 48840a3..88fdc8c 100644
--- a/discretehelpers/binv/a/binary_length/__init__.py
+++ b/discretehelpers/binv/a/binary_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def binary_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 2)) + 1
+    return int(n).bit_length()
 
 
 class NotNaturalError(ValueError):
-- 
2.43.0


From b686af05ee15515237555710595ceef8534612c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:18 +0000
Subject: [PATCH 02/38] fix: handle empty and negative exponents and copied
 vectors in Binv

Binv(exposet=[], minimal_length=n) raised an unrelated error,
Binv(intval=0, length=0) had length 1, negative exponents were taken as
positions from the end, and a vector made from another one shared its list.
---
 discretehelpers/binv/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index da1a39a..0c984c3 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -36,7 +36,7 @@ class Binv(object):
                 vector = vector.replace(' ', '')
             elif type(vector) == Binv:
                 trust = True
-                vector = vector.vector
+                vector = vector.vector.copy()
 
             if not trust:
                 for e in vector:
@@ -56,13 +56,13 @@ class Binv(object):
                     true_except(length >= binary_length(intval), LengthError)
                 else:
                     length = max(minimal_length, binary_length(intval))
-                vector = "{0:b}".format(intval).zfill(length)[::-1]
+                vector = "{0:b}".format(intval).zfill(length)[::-1] if length > 0 else ''
 
         elif case_exposet:
 
             true_except(type(exposet) in [set, list, tuple], IndicesTypeError)
             for e in exposet:
-                true_except(type(e) == int, IndicesEntryError)
+                true_except(type(e) == int and e >= 0, IndicesEntryError)
             if case_exposet_only:
                 if len(exposet) == 0:
                     self.set_empty()
@@ -74,7 +74,7 @@ class Binv(object):
                     if len(exposet) > 0:
                         true_except(length > max(exposet), LengthError)
                 else:
-                    length = max(minimal_length, max(exposet) + 1)
+                    length = max(minimal_length, max(exposet, default=-1) + 1)
             vector = [False] * length
             for i in exposet:
                 vector[i] = True
-- 
2.43.0


From 5b94ce53c6a04e6bf235319c7c06b84ae6731fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:56 +0000
Subject: [PATCH 03/38] fix: give the neutral permutation the right rank 0

The value was assigned but not returned, so the computation went on and
raised an error for the empty sequence.
---
 discretehelpers/perm/metributes/ranks/right_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/perm/metributes/ranks/right_rank.py b/discretehelpers/perm/metributes/ranks/right_rank.py
index 9dde9d9..c0c5f6c 100644
--- a/discretehelpers/perm/metributes/ranks/right_rank.py
+++ b/discretehelpers/perm/metributes/ranks/right_rank.py
@@ -15,7 +15,7 @@ def right_rank(self):
     true_except(not have(self.perilen), PermNotFiniteError)
 
     if self.neutral:
-        result = 0
+        return 0
 
     ric = right_inversion_count(self.sequence())
     ric_reflected = ric[::-1]
-- 
2.43.0


From 0b41c99ab60b0405149a8f7cfcf0309c71b43743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:49 +0000
Subject: [PATCH 04/38] fix: trim surplus unset digits of the negation vector
 in SigPerm

Equal signed permutations compared as different when one of them was
built from a negation vector with trailing zeros.
---
 discretehelpers/sig_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 1aedcfa..6ccd3dc 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -105,7 +105,7 @@ class SigPerm(Perm):
 
         self.length = max(raw_binv.required_length, self.perm.length)
         missing_length = self.length - raw_binv.length
-        self.binv = Binv(raw_binv.vector + [False] * missing_length)
+        self.binv = Binv((raw_binv.vector + [False] * missing_length)[:self.length])
 
         self.unsigned = self.binv.intval == 0
         self.unmoved = self.perm.neutral
-- 
2.43.0


From bd404d72bb1c71ceff8f979435b074e4d5f8a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:10 +0000
Subject: [PATCH 05/38] fix: refuse the matrix [[0]] and handle neutral and
 nested list input in WalshPerm

Singular matrices were accepted as neutral when only their upper left
entry was zero. Sequences and cycles of a given length failed for the
neutral Walsh permutation, and slices failed for all others. Nested
lists as matrix and Perm() as permutation raised unrelated errors.
---
 discretehelpers/walsh_perm/__init__.py                  | 9 ++++++---
 discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py | 3 +++
 discretehelpers/walsh_perm/a/shrink_matrix/__init__.py  | 8 +++++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index 4adeb03..3b5e2b7 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -34,6 +34,7 @@ class WalshPerm(Perm):
                 self.set_neutral()
                 return
 
+        matrix = np.array(matrix)
         try:
             self.matrix_minimal, self.degree = shrink_matrix(matrix)
         except IsNeutralFail:
@@ -43,7 +44,7 @@ class WalshPerm(Perm):
         self.neutral = False
         self.vector_object = Vector(matrix_to_vector(matrix))
         self.transpose_vector_object = Vector(matrix_to_vector(matrix, by_row=True))
-        self.perilen = 2 ** self.degree
+        self.perilen = self.length = 2 ** self.degree
 
         if not trust:
             self.mapping  # just call metribute, because verification happens there
@@ -93,7 +94,7 @@ class WalshPerm(Perm):
         true_except(not have(length) or not have(degree), RedundantParametersError)
         if have(length):
             true_except(is_power_of_two(length), NotPowerOfTwoError)
-            true_except(length >= self.perilen, RequestedDegreeSmallerActualDegreeError)
+            true_except(length >= 2 ** self.degree, RequestedDegreeSmallerActualDegreeError)
         if have(degree):
             true_except(degree >= self.degree, RequestedDegreeSmallerActualDegreeError)
             length = 2**degree
@@ -103,8 +104,10 @@ class WalshPerm(Perm):
         true_except(not have(length) or not have(degree), RedundantParametersError)
         if have(length):
             true_except(is_power_of_two(length), NotPowerOfTwoError)
-            true_except(length >= self.perilen, RequestedDegreeSmallerActualDegreeError)
+            true_except(length >= 2 ** self.degree, RequestedDegreeSmallerActualDegreeError)
         if have(degree):
             true_except(degree >= self.degree, RequestedDegreeSmallerActualDegreeError)
             length = 2**degree
+        if self.neutral:
+            return []
         return super(WalshPerm, self).cycles_dynamic(length)
diff --git a/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py b/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
index 36cb7bb..278e2c1 100644
--- a/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
@@ -19,6 +19,9 @@ def perm_to_matrix(perm, trust=False):
     else:
         true_except(sorted(perm) == list(range(len(perm))), NotEvenPermutationError)
 
+    if len(perm) == 0:
+        raise IsNeutralFail
+
     perilen = len(perm)
 
     log_perilen = log(perilen, 2)  # `perilen` should be a power of two. `degree` is the corresponding exponent.
diff --git a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
index c784e96..924a1c0 100644
--- a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
@@ -10,13 +10,15 @@ def shrink_matrix(matrix):
 
     matrix = np.array(matrix, dtype=int)  # should be redundant
 
-    true_except(matrix.size > 1, IsNeutralFail)
-    true_except(matrix.shape[0] == matrix.shape[1], NotSquareError)
+    true_except(matrix.size > 0, IsNeutralFail)
+    if matrix.size == 1:
+        matrix = matrix.reshape(1, 1)  # the outer brackets may be missing
+    true_except(matrix.ndim == 2 and matrix.shape[0] == matrix.shape[1], NotSquareError)
 
     degree = matrix.shape[0]
 
     while True:
-        if degree < 2:
+        if degree == 0:
             raise IsNeutralFail
 
         last = degree - 1
-- 
2.43.0


From fe6a4ffdc209613428ea4eaf053fab8b10dbcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:24 +0000
Subject: [PATCH 06/38] fix: drop stale cached values and keep labels of
 trivial partitions in SetPart

Cached properties were not reset after merges and refinements.
Labels were lost when no block with more than one element was left.
Overlapping singleton blocks and blocks outside the domain were accepted.
An element was not in the same block as itself.
---
 discretehelpers/set_part/__init__.py | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 351eaa5..6d3322f 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -2,7 +2,7 @@ from bidict import bidict
 
 from discretehelpers.a import true_except, is_natural, have
 
-from .ex import DomainsNotEqualError, DomainNotSetLikeError, DuplicateElementsError
+from .ex import DomainsNotEqualError, DomainNotSetLikeError, DuplicateElementsError, NotInDomainError
 
 
 class SetPart(object):
@@ -15,10 +15,20 @@ class SetPart(object):
         else:
             self.domain = domain  # keep the letters
 
+        if have(block_labels):
+            self.block_labels = bidict(block_labels)
+        else:
+            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
+
         if blocks is None:
             self.set_trivial()
             return
 
+        blocks = list(blocks)
+        elements = [element for block in blocks for element in block]
+        true_except(len(set(elements)) == len(elements), DuplicateElementsError)
+        true_except(all(self.element_in_domain(element) for element in elements), NotInDomainError)
+
         blocks = sorted(sorted(block) for block in blocks if len(block) > 1)
         if not blocks:
             self.set_trivial()
@@ -33,21 +43,12 @@ class SetPart(object):
         self.non_singleton_to_block_index = _
 
         self.non_singletons = set(self.non_singleton_to_block_index.keys())
-        true_except(
-            len(self.non_singletons) == sum([len(block) for block in self.blocks]),
-            DuplicateElementsError
-        )
 
         if self.domain == 'N':
             self.length = max(self.non_singletons) + 1
 
         self.trivial = False
 
-        if have(block_labels):
-            self.block_labels = bidict(block_labels)
-        else:
-            self.block_labels = bidict()  # remains empty until filled with `add_block_label`
-
         self.set_dummies()
 
     from .metributes import pairs, intval, canonical_blocks_with_singletons, singletons
@@ -65,7 +66,6 @@ class SetPart(object):
         self.blocks = []
         self.non_singleton_to_block_index = dict()
         self.non_singletons = set()
-        self.block_labels = bidict()
 
         if self.domain == 'N':
             self.length = 0
@@ -73,10 +73,8 @@ class SetPart(object):
         self.set_dummies()
 
     def set_dummies(self):
-        self._pairs = None
-        self._intval = None
-        self._canonical_blocks_with_singletons = None
-        self._singletons = None
+        for name in ['pairs', 'intval', 'canonical_blocks_with_singletons', 'singletons']:
+            self.__dict__.pop(name, None)  # forget cached properties of earlier blocks
         self.glove_compartment = None  # just a handy stowaway (without functionality within this class)
 
     def __eq__(self, other):
@@ -103,6 +101,8 @@ class SetPart(object):
             return None
 
     def pair_in_same_block(self, a, b):
+        if a == b:
+            return True
         if not {a, b}.issubset(self.non_singletons):
             return False
         return self.non_singleton_to_block_index[a] == self.non_singleton_to_block_index[b]
-- 
2.43.0


From bb0c2e2f65cb815c359fdc1d0fd64d9ec90419f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:46 +0000
Subject: [PATCH 07/38] fix: keep the domain in joins and leave a SetPart
 unchanged when a change is refused

The join lost the domain and accepted partitions of different domains.
A refused merge of many elements or a refused refinement was done partly.
Blocks of a trivial partition of the integers could not be listed.
---
 .../methods/blocks_with_singletons/__init__.py      |  6 +++---
 .../methods/meet_and_join/join/_0_prototypes.py     |  4 ++--
 .../set_part/methods/meet_and_join/join/_1_fast.py  |  9 ++++++++-
 .../set_part/methods/merge_many/__init__.py         | 13 +++++++++++++
 .../set_part/methods/refine_block/__init__.py       | 13 ++++++++++---
 5 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
index ac712b7..1a7873d 100644
--- a/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
+++ b/discretehelpers/set_part/methods/blocks_with_singletons/__init__.py
@@ -12,8 +12,8 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         if self.domain == 'N':
             elements = range(self.length)
         elif self.domain == 'Z':
-            low = min(self.non_singletons)
-            high = max(self.non_singletons) + 1
+            low = min(self.non_singletons, default=0)
+            high = max(self.non_singletons, default=-1) + 1
             elements = range(low, high)
         else:
             elements = self.domain
@@ -30,7 +30,7 @@ def blocks_with_singletons(self, length=None, range_pair=None, elements=None):
         true_except(self.domain == 'Z', RangeNotAllowedError)
         low, high = range_pair
         true_except(type(low) == type(high) == int, RangeWrongTypeError)
-        true_except(low <= min(self.non_singletons) and high > max(self.non_singletons), RangeMismatchError)
+        true_except(low <= min(self.non_singletons, default=low) and high > max(self.non_singletons, default=high - 1), RangeMismatchError)
         elements = range(low, high)
 
     elif not have(length) and not have(range_pair) and have(elements):  # elements (not restricted by domain)
diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py b/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
index bcd52d8..ee69bbc 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
@@ -33,8 +33,8 @@ def _join_prototype_improved(self, other):
     clean_s_blocks = [sorted(set(block) - trash) for block in self.blocks]
     clean_o_blocks = [sorted(set(block) - trash) for block in other.blocks]
 
-    clean_s_part = SetPart(clean_s_blocks)
-    clean_o_part = SetPart(clean_o_blocks)
+    clean_s_part = SetPart(clean_s_blocks, self.domain)
+    clean_o_part = SetPart(clean_o_blocks, self.domain)
 
     clean_join_part = clean_s_part._join_prototype(clean_o_part)
 
diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
index 03be9be..48da9e8 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
@@ -1,7 +1,14 @@
+from discretehelpers.a import true_except
+
+from ....ex import DomainsNotEqualError
+
+
 def join(self, other):
 
     from discretehelpers.set_part import SetPart
 
+    true_except(self.domain == other.domain, DomainsNotEqualError)
+
     domain = self.non_singletons | other.non_singletons
 
     result_blocks = []
@@ -59,4 +66,4 @@ def join(self, other):
             pass
         close_block()
 
-    return SetPart(result_blocks)
+    return SetPart(result_blocks, self.domain)
diff --git a/discretehelpers/set_part/methods/merge_many/__init__.py b/discretehelpers/set_part/methods/merge_many/__init__.py
index d3cff86..7e40170 100644
--- a/discretehelpers/set_part/methods/merge_many/__init__.py
+++ b/discretehelpers/set_part/methods/merge_many/__init__.py
@@ -1,7 +1,20 @@
 from itertools import combinations
 
+from discretehelpers.a import true_except, have
+
+from ...ex import NotInDomainError
+from ...methods.block_labels.ex import LabelContradictionError
+
 
 def merge_many(self, many):
+
+    many = list(many)
+
+    # check everything before changing anything
+    true_except(all(self.element_in_domain(element) for element in many), NotInDomainError)
+    labels = [self.get_label_from_element(element) for element in many]
+    true_except(len(set(label for label in labels if have(label))) < 2, LabelContradictionError)
+
     for a, b in combinations(many, 2):
         self.merge_pair(a, b)
 
diff --git a/discretehelpers/set_part/methods/refine_block/__init__.py b/discretehelpers/set_part/methods/refine_block/__init__.py
index 4050fbb..243524a 100644
--- a/discretehelpers/set_part/methods/refine_block/__init__.py
+++ b/discretehelpers/set_part/methods/refine_block/__init__.py
@@ -3,6 +3,8 @@ from itertools import chain
 from discretehelpers.a import have, true_except
 from discretehelpers.ex import ArgValueError, ArgTypeError
 
+from ...methods.block_labels.ex import LabelContradictionError
+
 
 def refine_block(self, new_blocks, new_labels=None):
 
@@ -15,6 +17,13 @@ def refine_block(self, new_blocks, new_labels=None):
 
     true_except(old_block in self.blocks, ArgValueError)
 
+    if have(new_labels):  # check everything before changing anything
+        true_except(type(new_labels) in [list, tuple], ArgTypeError)
+        true_except(len(new_labels) == len(new_blocks), ArgValueError)
+        kept_labels = [label for block, label in self.block_labels.items() if block != tuple(old_block)]
+        all_labels = kept_labels + list(new_labels)
+        true_except(len(set(all_labels)) == len(all_labels), LabelContradictionError)
+
     self.blocks.remove(old_block)
     self.blocks += new_blocks
 
@@ -24,10 +33,8 @@ def refine_block(self, new_blocks, new_labels=None):
         pass
 
     if have(new_labels):
-        true_except(type(new_labels) in [list, tuple], ArgTypeError)
-        true_except(len(new_labels) == len(new_blocks), ArgValueError)
         for i, block in enumerate(new_blocks):
             label = new_labels[i]
-            self.block_labels[tuple(block)] = label
+            self.block_labels[tuple(sorted(block))] = label
 
     self.__init__(self.blocks, self.domain, self.block_labels)  # reinitialize
-- 
2.43.0


From 38693aa16829d93171fa5487df3f41a462f142e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:08 +0000
Subject: [PATCH 08/38] fix: draw all conclusions from the constructor
 arguments of SetPartComp

Complement pairs given to the constructor were not closed transitively.
A partition handed in was shared with the new object.
An element was not equal to itself.
---
 discretehelpers/set_part_comp/__init__.py | 30 +++++++++--------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 83e158b..54acaa2 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -1,9 +1,9 @@
 from discretehelpers.a import have
-
+from discretehelpers.ex import ArgTypeError
 
 from discretehelpers.set_part import SetPart
 
-from .helpers import _exposet, _representatives, _other_element_in_pair, _pair
+from .helpers import _representatives, _other_element_in_pair, _pair
 from .ex import *
 
 
@@ -17,33 +17,25 @@ class SetPartComp():
             if type(equal_part) == list:
                 self.equal_part = SetPart(equal_part, 'Z')
             elif type(equal_part) == SetPart:
-                self.equal_part = equal_part
+                self.equal_part = SetPart(equal_part.blocks, equal_part.domain)  # copy
+            else:
+                raise ArgTypeError
         else:
             self.equal_part = SetPart([], 'Z')
 
+        self.comp_pairs = set()
+
         if have(comp_pairs):
-            canonical_comp_pairs = set()
             for a, b in comp_pairs:
-                canonical_a = min(self.equal_part.element_to_block(a))
-                canonical_b = min(self.equal_part.element_to_block(b))
-                canonical_pair = tuple(sorted([canonical_a, canonical_b]))
-                canonical_comp_pairs.add(canonical_pair)
-            self.comp_pairs = canonical_comp_pairs
-        else:
-            self.comp_pairs = set()
-
-        if have(equal_part) and have(comp_pairs):  # check if arguments do not contradict each other
-            for pair in self.comp_pairs:
-                if self.equal_part.pair_in_same_block(*pair):
+                try:
+                    self.set_comp(a, b)
+                except SetCompEqualsError:  # arguments contradict each other
                     raise PartCompMismatchError
 
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
 
     def are_equal(self, a, b):
-        a_index, b_index = _exposet(self, a, b)
-        if not (have(a_index) and have(b_index)):
-            return False
-        return a_index == b_index
+        return self.equal_part.pair_in_same_block(a, b)
 
     def are_comp(self, a, b):
         a_repr, b_repr = _representatives(self, a, b)
-- 
2.43.0


From 4e2b65e29a199afb9417ec8662091858b685781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:49 +0000
Subject: [PATCH 09/38] fix: make the bitwise comparison > of Boolean functions
 strict

---
 discretehelpers/boolf/methods/bitwise/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/bitwise/__init__.py b/discretehelpers/boolf/methods/bitwise/__init__.py
index 772ad2a..02d4635 100644
--- a/discretehelpers/boolf/methods/bitwise/__init__.py
+++ b/discretehelpers/boolf/methods/bitwise/__init__.py
@@ -38,7 +38,7 @@ def bitwise_lt(self, other):
 
 
 def bitwise_gt(self, other):
-    return other.bitwise_le(self)
+    return other.bitwise_lt(self)
 
 
 def bitwise_le(self, other):
-- 
2.43.0


From 733c295485c11c9f58503565673965f59e834848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:03 +0000
Subject: [PATCH 10/38] fix: evaluate constant Boolean functions and apply them
 to no arguments

---
 discretehelpers/boolf/methods/vals_apply/val.py  | 3 +++
 discretehelpers/boolf/methods/vals_apply/vals.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/discretehelpers/boolf/methods/vals_apply/val.py b/discretehelpers/boolf/methods/vals_apply/val.py
index 9b783ed..89fddd5 100644
--- a/discretehelpers/boolf/methods/vals_apply/val.py
+++ b/discretehelpers/boolf/methods/vals_apply/val.py
@@ -9,6 +9,9 @@ def val(self, *args):
 
     true_except(len(args) == self.valency, SarityMismatchError)
 
+    if self.valency == 0:
+        return self.root[0]
+
     first_arg = args[0]
     case_single = type(first_arg) in [int, bool] and int(first_arg) in [0, 1]
     case_multiple = type(first_arg) in [list, Binv]
diff --git a/discretehelpers/boolf/methods/vals_apply/vals.py b/discretehelpers/boolf/methods/vals_apply/vals.py
index cc53d74..3b15ed2 100644
--- a/discretehelpers/boolf/methods/vals_apply/vals.py
+++ b/discretehelpers/boolf/methods/vals_apply/vals.py
@@ -17,6 +17,9 @@ def vals(self, *atomkey_signed_perm):
     atomkey_positive_perm = logic_abs_vector(atomkey_signed_perm)
     true_except(sorted(atomkey_positive_perm) == list(range(self.valency)), UnexpectedArgumentError)
 
+    if self.valency == 0:
+        return self.root
+
     tuple_of_patterns = make_atompatterns(atomkey_signed_perm)
 
     return self.val(*tuple_of_patterns)
-- 
2.43.0


From bb48341314846e471b71ad55859496f97389263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:27 +0000
Subject: [PATCH 11/38] fix: refuse argument combinations that made the Boolf
 constructor hang

Unknown argument combinations led to an endless loop.
Repeated or negative argument names were accepted together with true places.
Argument names given as a tuple were refused together with true places.
---
 discretehelpers/boolf/__init__.py                    |  3 +++
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 12 +++++++++---
 discretehelpers/boolf/subinit_methods/tt/__init__.py |  2 +-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/discretehelpers/boolf/__init__.py b/discretehelpers/boolf/__init__.py
index fd98c7f..96c637f 100644
--- a/discretehelpers/boolf/__init__.py
+++ b/discretehelpers/boolf/__init__.py
@@ -2,6 +2,8 @@ from discretehelpers.binv import Binv
 
 from .ex import *
 
+from discretehelpers.ex import ArgComboError
+
 from .a import reorder_if_atomvals_not_asc, deflate
 
 
@@ -40,6 +42,7 @@ class Boolf(object):
                 break
             if self._subinit_multi():
                 break
+            raise ArgComboError
 
         self.set_dummies()
 
diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 13a145b..6cfcd55 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -1,5 +1,7 @@
 from discretehelpers.a import have, true_except, subinit_bouncer
 
+from discretehelpers.boolf.ex import AtomvalsNotUniqueError, AtomvalNegativeError
+
 from discretehelpers.ex import ArgMismatchError, ArgComboError
 
 
@@ -15,13 +17,17 @@ def _subinit_fullspots(self):
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
+    if have(atomvals):
+        atomvals = list(atomvals)
+        true_except(len(set(atomvals)) == len(atomvals), AtomvalsNotUniqueError)
+        true_except(min(atomvals, default=0) >= 0, AtomvalNegativeError)
+    else:
+        atomvals = list(range(arity))
+
     if len(fullspots) == 0:  # constant False
         self.set_constant(False)
         return True
 
-    if not have(atomvals):
-        atomvals = list(range(arity))
-
     if set(atomvals) == set():  # constant True
         true_except(set(fullspots) == {0}, ArgMismatchError)
         self.set_constant(True)
diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 516b354..455deb8 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -39,6 +39,7 @@ def _subinit_truth_table(self):
     if have(atomvals):
         valency = len(atomvals)
         true_except(len(set(atomvals)) == valency, AtomvalsNotUniqueError)
+        true_except(min(atomvals, default=0) >= 0, AtomvalNegativeError)
         true_except(length == 2 ** valency, SarityVectorMismatchError)
 
     true_except(length > 0, ArgValueError)  # a truth table should at least have one digit
@@ -48,7 +49,6 @@ def _subinit_truth_table(self):
         return True
 
     if have(atomvals):
-        true_except(min(atomvals) >= 0, AtomvalNegativeError)
         binv, atomvals = reorder_if_atomvals_not_asc(binv, atomvals)
     else:
         from discretehelpers.a import log_int
-- 
2.43.0


From 920f019d6d453bc25d648eb0e1ddbf3b65156496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:53 +0000
Subject: [PATCH 12/38] fix: sort the argument names before dropping irrelevant
 arguments of true places

Functions built from true places and unsorted argument names differed
from those built from the corresponding truth table.
---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 6cfcd55..47349a3 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -13,7 +13,6 @@ def _subinit_fullspots(self):
     fullspots = self._doa['fs']
     atomvals = self._doa['av']
     arity = self._doa['arity']
-    skip_deflation = self._doda['sd']
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
@@ -39,10 +38,6 @@ def _subinit_fullspots(self):
     length = 1 << len(atomvals)  # 2 ** len(atomvals)
     binv = Binv(exposet=fullspots, length=length)
 
-    if not skip_deflation:
-        from discretehelpers.boolf.a import deflate
-        binv, atomvals = deflate(binv, atomvals)
-
     self._doa['tt'] = binv
     self._doa['av'] = atomvals
     self._doa['arity'] = self._doa['fs'] = None
-- 
2.43.0


From 2f808be5d49b3c5d53b4f89b7a2fa29494d26373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:40 +0000
Subject: [PATCH 13/38] fix: refuse Walsh spectra whose length is not a power
 of two

---
 discretehelpers/boolf/subinit_methods/ws/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/subinit_methods/ws/__init__.py b/discretehelpers/boolf/subinit_methods/ws/__init__.py
index 30b5676..29536f1 100644
--- a/discretehelpers/boolf/subinit_methods/ws/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/ws/__init__.py
@@ -1,4 +1,6 @@
-from discretehelpers.a import subinit_bouncer
+from discretehelpers.a import subinit_bouncer, true_except, is_power_of_two
+
+from discretehelpers.ex import ArgValueError
 
 
 def _subinit_walsh_spectrum(self):
@@ -7,12 +9,12 @@ def _subinit_walsh_spectrum(self):
         return False
 
     ws = self._doa['ws']
+    true_except(is_power_of_two(len(ws)), ArgValueError)
 
     from sympy.discrete.transforms import ifwht
     tt = ifwht(ws)
 
     if not set(tt).issubset({0, 1}):
-        from discretehelpers.ex import ArgValueError
         raise ArgValueError
 
     self._doa['tt'] = tt
-- 
2.43.0


From 10b7ef6764e34d3cfa71d85d355134fdaa30f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:19 +0000
Subject: [PATCH 14/38] fix: give constants a clan in the long form

The clan of a constant without abbreviation ended in a TypeError when no arity
was given, and in endless recursion for the contradiction and for arity 0.
---
 discretehelpers/boolf/methods/_ec/ec_clan/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py b/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
index 1600461..2de60d0 100644
--- a/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
+++ b/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
@@ -19,11 +19,12 @@ def ec_clan(self, arity=None, suppress_abbreviation=False):
             part.add_label_to_element(pair_or_triple, self)
             return part
         else:
-            from discretehelpers.boolf import Boolf
-            fullspots = list(range(2 ** arity)) if self.root[0] else []
-            atomvals = list(range(arity))
-            boolf = Boolf(fullspots=fullspots, atomvals=atomvals, skip_deflation=True)
-            return boolf.ec_clan(arity, suppress_abbreviation)
+            if not have(arity):
+                arity = 0
+            pairs_m_n = list(product(range(2 ** arity), range(factorial(arity))))
+            part = SetPart(blocks=[pairs_m_n], domain=pairs_m_n)
+            part.add_label_to_element((0, 0), self)
+            return part
 
     true_except(self.adicity <= 5, ArgNotFeasibleError)
 
-- 
2.43.0


From 2e0f2d626fd9ca62f05acec423805d74ca8062d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:24 +0000
Subject: [PATCH 15/38] fix: take the factions of a clan within the arity of
 the clan

The members of the clan of a spread function can have different adicities.
Their factions were taken for the adicity of each member, so the factions did
not fit together, and the result depended on the order of a set.
---
 .../boolf/methods/_ec/ec_clan_partitioned/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py b/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
index 2e18426..e315650 100644
--- a/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
+++ b/discretehelpers/boolf/methods/_ec/ec_clan_partitioned/__init__.py
@@ -12,7 +12,7 @@ def ec_clan_partitioned(self):
     set_of_perm_tuples = set()
     perm_sum = 0
     for boolf in negperm_set:
-        perm = boolf.ec_faction()
+        perm = boolf.ec_faction(self.adicity)
         perm_tuple = tuple(sorted(perm.block_labels.values()))
         if perm_tuple not in set_of_perm_tuples:
             set_of_perm_tuples.add(perm_tuple)
-- 
2.43.0


From 28340cdf9576e359ef2744d8607f17d7ce1fee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:20 +0000
Subject: [PATCH 16/38] fix: map places of constants in bloatless_spotint like
 those of other functions

The only place of a constant is 0. The place was reported as 1 for the
tautology, and blightless_spotint of the tautology raised an error.
---
 discretehelpers/boolf/methods/bloatless_spotint/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/discretehelpers/boolf/methods/bloatless_spotint/__init__.py b/discretehelpers/boolf/methods/bloatless_spotint/__init__.py
index e6e95ac..fb7a5d1 100644
--- a/discretehelpers/boolf/methods/bloatless_spotint/__init__.py
+++ b/discretehelpers/boolf/methods/bloatless_spotint/__init__.py
@@ -12,9 +12,6 @@ Within this file, the original binary expression is called "major" and that of t
 
 def bloatless_spotint(self, spotint):
 
-    if self.is_constant:
-        return int(self.root[0])
-
     true_except(spotint < 2 ** self.valency, TooBigError)
     major_binv = Binv(intval=spotint, length=self.valency)
 
-- 
2.43.0


From ea02d55cd6cf0dce7c7b0f3a21eae90389edec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:08 +0000
Subject: [PATCH 17/38] fix: make filtrated_boolf independent of the order of
 its arguments

The small truth table was built in the order of the list, but unsorted
argument names have a different meaning in the Boolf constructor.
---
 discretehelpers/boolf/methods/filtrated_boolf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
index 90217d8..1b43b96 100644
--- a/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_boolf/__init__.py
@@ -11,6 +11,7 @@ def filtrated_boolf(self, small_atomvals):
 
     big_atomvals = self.atomvals
     true_except(set(small_atomvals).issubset(big_atomvals), AtomvalsMismatchError)
+    small_atomvals = sorted(small_atomvals)
     
     big_valency = self.valency
     big_length = 2 ** big_valency
-- 
2.43.0


From 29e7d242690c37d32dbc88aed521eadf7d8b28d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:08 +0000
Subject: [PATCH 18/38] fix: swap the roles of both sets in filtrated_pair for
 all patterns

Patterns of empty or universal sets were not swapped for a > b.
---
 discretehelpers/boolf/methods/filtrated_pair/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/discretehelpers/boolf/methods/filtrated_pair/__init__.py b/discretehelpers/boolf/methods/filtrated_pair/__init__.py
index 296ba49..b865d7c 100644
--- a/discretehelpers/boolf/methods/filtrated_pair/__init__.py
+++ b/discretehelpers/boolf/methods/filtrated_pair/__init__.py
@@ -10,7 +10,4 @@ def filtrated_pair(self, a, b):
 
         raw_result = self.filtrated_pairs[(b, a)]
 
-        if raw_result in ['1011', '1101']:  # subset, superset
-            return raw_result[::-1]
-        else:
-            return raw_result
+        return raw_result[0] + raw_result[2] + raw_result[1] + raw_result[3]  # swap subset and superset
-- 
2.43.0


From 5c3c46ddead288b83522ac26373c3fd06bfe3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:08 +0000
Subject: [PATCH 19/38] fix: let alphabet_subset accept an empty list

The pretty methods of constants raised a ValueError.
---
 discretehelpers/a/alphabet_subset/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/alphabet_subset/__init__.py b/discretehelpers/a/alphabet_subset/__init__.py
index 5b50fc9..15aa89a 100644
--- a/discretehelpers/a/alphabet_subset/__init__.py
+++ b/discretehelpers/a/alphabet_subset/__init__.py
@@ -4,7 +4,7 @@ from discretehelpers.ex import ArgValueError
 
 def alphabet_subset(exposet):
 
-    if max(exposet) < 26:
+    if max(exposet, default=0) < 26:
 
         alphabet = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z']
 
-- 
2.43.0


From ed5dc4053fe5a180f5e2c59eb3452d5b32a2a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:01 +0000
Subject: [PATCH 20/38] fix: accept argument names that are numbers in the
 pretty hypersplits

From argument 26 the default names are numbers, which raised a TypeError.
---
 .../_pretty/hypersplits_potential_cores_pretty/__init__.py  | 6 +++---
 .../boolf/methods/_pretty/hypersplits_pretty/__init__.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discretehelpers/boolf/methods/_pretty/hypersplits_potential_cores_pretty/__init__.py b/discretehelpers/boolf/methods/_pretty/hypersplits_potential_cores_pretty/__init__.py
index fe04b1a..46ce737 100644
--- a/discretehelpers/boolf/methods/_pretty/hypersplits_potential_cores_pretty/__init__.py
+++ b/discretehelpers/boolf/methods/_pretty/hypersplits_potential_cores_pretty/__init__.py
@@ -19,13 +19,13 @@ def hypersplits_potential_cores_pretty(self, atomnames=None, print_only=False):
         new_list_of_dicts = []
         for old_pc_dict in old_pc_dicts:
             old_fixed, old_free, old_determined, old_vectors = old_pc_dict['fixed'], old_pc_dict['free'], old_pc_dict['determined'], old_pc_dict['vectors']
-            new_fixed = ''.join([atomnames[atomkey] for atomkey in old_fixed])
-            new_free = ''.join([atomnames[atomkey] for atomkey in old_free])
+            new_fixed = ''.join([str(atomnames[atomkey]) for atomkey in old_fixed])
+            new_free = ''.join([str(atomnames[atomkey]) for atomkey in old_free])
             new_determined = []
             for atomkey, int_val in old_determined.items():
                 atomname = atomnames[atomkey]
                 str_val = {-1: '−', 1: '+'}[int_val]
-                new_determined.append(atomname + str_val)
+                new_determined.append(str(atomname) + str_val)
             new_determined = ' '.join(new_determined)
             new_vectors = [balanced_ternary_vector_to_string(_) for _ in old_vectors]
             new_list_of_dicts.append({
diff --git a/discretehelpers/boolf/methods/_pretty/hypersplits_pretty/__init__.py b/discretehelpers/boolf/methods/_pretty/hypersplits_pretty/__init__.py
index 0a4cd41..b888aae 100644
--- a/discretehelpers/boolf/methods/_pretty/hypersplits_pretty/__init__.py
+++ b/discretehelpers/boolf/methods/_pretty/hypersplits_pretty/__init__.py
@@ -27,7 +27,7 @@ def hypersplits_pretty(self, atomnames=None, print_only=False):
                 for binary_place, binary_digit in enumerate(old_block_label):
                     parenthesis = '+' if binary_digit == '1' else '−'
                     atomname = new_molecule[binary_place]
-                    new_block_label.append(parenthesis + atomname)
+                    new_block_label.append(parenthesis + str(atomname))
                 new_block_label = ' '.join(new_block_label)
                 new_setpart[new_block_label] = block_list
             new_list_of_dicts.append(new_setpart)
-- 
2.43.0


From 8a8284d39581d9704061271844e386a6e16ca955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:27 +0000
Subject: [PATCH 21/38] fix: print segments of functions whose argument names
 are numbers

---
 .../find_segments/a/classes/collection_of_segments/__init__.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/find_segments/a/classes/collection_of_segments/__init__.py b/discretehelpers/boolf/methods/find_segments/a/classes/collection_of_segments/__init__.py
index 21b108a..ad9b362 100644
--- a/discretehelpers/boolf/methods/find_segments/a/classes/collection_of_segments/__init__.py
+++ b/discretehelpers/boolf/methods/find_segments/a/classes/collection_of_segments/__init__.py
@@ -81,7 +81,7 @@ class CollectionOfSegments(object):
                 pattern_to_vectors[pattern].append(vector)
             patterns = sorted_colex(pattern_to_vectors.keys())
             for pattern in patterns:
-                pattern_with_atomnames = [atomnames[_] for _ in pattern]
+                pattern_with_atomnames = [str(atomnames[_]) for _ in pattern]
                 pattern_with_atomnames = ','.join(pattern_with_atomnames)
                 list_of_vectors = sorted_colex(pattern_to_vectors[pattern])
                 vector_strings_to_adjacent_spots = dict()
-- 
2.43.0


From d45133d2b3a593f4626eff9757bcbe8703ebc7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:22 +0000
Subject: [PATCH 22/38] fix: refuse determinants of matrices that are not
 square

They were calculated from a part of the matrix.
---
 discretehelpers/a/integer_determinant/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/a/integer_determinant/__init__.py b/discretehelpers/a/integer_determinant/__init__.py
index a96e757..e1b9775 100644
--- a/discretehelpers/a/integer_determinant/__init__.py
+++ b/discretehelpers/a/integer_determinant/__init__.py
@@ -7,6 +7,7 @@ def integer_determinant(mat):
         return 1
 
     true_except(is_integer_matrix(mat), TypeError)
+    true_except(all(len(row) == len(mat) for row in mat), ValueError)  # must be square
 
     # make a copy to keep original matrix unmodified
     # convert entries to int in case they are bool
-- 
2.43.0


From f619ae8fa578110a01c13eb7da0e1e9b784b3271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:27 +0000
Subject: [PATCH 23/38] fix: let subdict work without fresh entries

---
 discretehelpers/a/subdict/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/subdict/__init__.py b/discretehelpers/a/subdict/__init__.py
index 6e9f684..95f427b 100644
--- a/discretehelpers/a/subdict/__init__.py
+++ b/discretehelpers/a/subdict/__init__.py
@@ -14,7 +14,8 @@ def subdict(original, drop=None, fresh=None):
     for key in kept_keys:
         result[key] = original[key]
 
-    for key, val in fresh.items():
-        result[key] = val
+    if have(fresh):
+        for key, val in fresh.items():
+            result[key] = val
 
     return result
-- 
2.43.0


From 5412ea7b9257ec3cfe8ef13abab351c37d5e6a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:27 +0000
Subject: [PATCH 24/38] fix: keep Sierpinski rows ascending for exponents of
 eight and more

The exponents came in the order of a set.
---
 discretehelpers/a/int_to_sierpinski_row/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/int_to_sierpinski_row/__init__.py b/discretehelpers/a/int_to_sierpinski_row/__init__.py
index a608134..a4e61b1 100644
--- a/discretehelpers/a/int_to_sierpinski_row/__init__.py
+++ b/discretehelpers/a/int_to_sierpinski_row/__init__.py
@@ -21,7 +21,7 @@ def int_to_sierpinski_row(intval=None, exposet=None):
         if not exposet:  # empty list
             return [0]
 
-    addends = [1 << i for i in exposet]
+    addends = [1 << i for i in sorted(exposet)]
     short = len(addends)
     long = 2**short
     result = [0] * long
-- 
2.43.0


From 3bb625c324a39227bd865ea3d584895c80f90fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:27 +0000
Subject: [PATCH 25/38] fix: return one list per argument when sorting empty
 lists together

---
 discretehelpers/a/sort_together/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/a/sort_together/__init__.py b/discretehelpers/a/sort_together/__init__.py
index db3e157..bd8db15 100644
--- a/discretehelpers/a/sort_together/__init__.py
+++ b/discretehelpers/a/sort_together/__init__.py
@@ -9,6 +9,9 @@ def sort_together(*args):
     for arg in args:
         true_except(len(arg) == length, LengthMismatchError)
 
+    if length == 0:
+        return tuple([] for _ in args)
+
     zipped = zip(*args)
     sorted_zipped = sorted(zipped)
     unzipped = zip(*sorted_zipped)
-- 
2.43.0


From d055153895c6798c8d7c1cca560718b3e4f773f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:25 +0000
Subject: [PATCH 26/38] fix: yield rank 0 for the coset of the empty
 permutation

The factoradic package refuses empty lists.
---
 discretehelpers/a/schoute_coset_gen/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/schoute_coset_gen/__init__.py b/discretehelpers/a/schoute_coset_gen/__init__.py
index 2b2ffdd..453aacc 100644
--- a/discretehelpers/a/schoute_coset_gen/__init__.py
+++ b/discretehelpers/a/schoute_coset_gen/__init__.py
@@ -29,4 +29,4 @@ def schoute_coset_gen(key_int, val_int, arity):
         for i, val in enumerate(reverse_perm):
             key = verso_keys[i]
             perm[key] = val
-        yield from_factoradic(left_inversion_count(perm))
+        yield from_factoradic(left_inversion_count(perm)) if arity > 0 else 0
-- 
2.43.0


From 41b7321ac1fc5b5668779cda40395ebb953337e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:46 +0000
Subject: [PATCH 27/38] fix: refuse overlapping cycles and unsuitable elements
 in Perm

Overlapping cycles gave a permutation that depended on their order.
Sequences of anything but integers or lists gave the neutral permutation.
Dictionaries could move negative and broken numbers.
---
 discretehelpers/perm/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 65ef3c9..70b22a7 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -34,13 +34,19 @@ class Perm(object):
             elif element_type == list:  # `arg` is list of cycles
                 for cycle in arg:
                     true_except(type(cycle) == list and all(is_natural(e) for e in cycle), CyclesError)
+                elements = [e for cycle in arg for e in cycle]
+                true_except(len(set(elements)) == len(elements), CyclesError)  # cycles must be disjoint
+                for cycle in arg:
                     length = len(cycle)
                     for key, val in enumerate(cycle):
                         map_from = val
                         map_to = cycle[(key + 1) % length]
                         if map_from != map_to:
                             mapping[map_from] = map_to
+            else:
+                raise ArgTypeError
         elif type(arg) == dict:
+            true_except(all(is_natural(e) for e in arg), DictError)
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             for key, val in arg.items():
                 if key != val:
-- 
2.43.0


From 28b692a771e7c234ea47d42d1e6d3ea1e6e3a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:09 +0000
Subject: [PATCH 28/38] fix: refuse contradictory arguments and unsuitable
 matrices in SigPerm

When both sides were negated, or one thing was given in two ways, some of
the arguments were ignored. Zero columns of a matrix were skipped.
---
 discretehelpers/sig_perm/__init__.py                      | 6 ++++++
 discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 6ccd3dc..f7f746a 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -28,6 +28,12 @@ class SigPerm(Perm):
             sequence, matrix, schoute_perm
         ]
 
+        number_of_negators = sum(have(_) for _ in [valneg, valneg_index, keyneg, keyneg_index])
+        number_of_perms = sum(have(_) for _ in [perm, perm_index])
+        number_of_others = sum(have(_) for _ in [pair, sequence, matrix, schoute_perm])
+        numbers = (number_of_negators, number_of_perms, number_of_others)
+        true_except(numbers in [(1, 1, 0), (0, 0, 1)], ArgComboError)
+
         if have(keyneg):
             if type(keyneg) in [list, tuple]:
                 keyneg = Binv(keyneg)
diff --git a/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py b/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
index 9dbecf3..44b4415 100644
--- a/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
+++ b/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
@@ -9,6 +9,9 @@ def matrix_to_sequence(matrix, inverse=False):
     size, also_size = mat.shape
     true_except(size == also_size and type(size) == int, ValueError)
 
+    # each column must have exactly one non-zero entry
+    true_except(np.isin(mat, [-1, 0, 1]).all() and (np.abs(mat).sum(axis=0) == 1).all(), ValueError)
+
     if inverse:
         mat = mat.transpose()
 
-- 
2.43.0


From 0e65ce6b30b62965c309210deb43398080c2c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:29 +0000
Subject: [PATCH 29/38] fix: refuse fractions as binary digits and argument
 names

Fractional digits of binary vectors were cut off, and a minimal length given
with a vector was ignored.
---
 discretehelpers/binv/__init__.py                     | 3 ++-
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 4 ++--
 discretehelpers/boolf/subinit_methods/tt/__init__.py | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index 0c984c3..f9b6ea2 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -10,7 +10,7 @@ class Binv(object):
 
     def __init__(self, vector=None, intval=None, exposet=None, length=None, minimal_length=None):
 
-        case_vector = have(vector) and not have(intval) and not have(exposet) and not have(length)
+        case_vector = have(vector) and not have(intval) and not have(exposet) and not (have(length) or have(minimal_length))
 
         case_intval = have(intval) and not have(vector) and not have(exposet)
         case_intval_only = case_intval and not (have(length) or have(minimal_length))
@@ -42,6 +42,7 @@ class Binv(object):
                 for e in vector:
                     try_except(lambda: int(e), do_raise=VectorEntryError, if_raised=ValueError)
                     true_except(int(e) in [0, 1], VectorEntryError)
+                    true_except(isinstance(e, str) or e == int(e), VectorEntryError)  # no fractions
 
         elif case_intval:
 
diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 47349a3..87cd013 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -1,4 +1,4 @@
-from discretehelpers.a import have, true_except, subinit_bouncer
+from discretehelpers.a import have, is_natural, true_except, subinit_bouncer
 
 from discretehelpers.boolf.ex import AtomvalsNotUniqueError, AtomvalNegativeError
 
@@ -19,7 +19,7 @@ def _subinit_fullspots(self):
     if have(atomvals):
         atomvals = list(atomvals)
         true_except(len(set(atomvals)) == len(atomvals), AtomvalsNotUniqueError)
-        true_except(min(atomvals, default=0) >= 0, AtomvalNegativeError)
+        true_except(all(is_natural(_) for _ in atomvals), AtomvalNegativeError)
     else:
         atomvals = list(range(arity))
 
diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 455deb8..8dcd7fd 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -1,4 +1,4 @@
-from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int
+from discretehelpers.a import have, is_natural, true_except, subinit_bouncer, type_clean_int
 
 from discretehelpers.boolf.a import reorder_if_atomvals_not_asc
 from discretehelpers.boolf.ex import AtomvalsNotUniqueError, SarityVectorMismatchError, AtomvalNegativeError
@@ -39,7 +39,7 @@ def _subinit_truth_table(self):
     if have(atomvals):
         valency = len(atomvals)
         true_except(len(set(atomvals)) == valency, AtomvalsNotUniqueError)
-        true_except(min(atomvals, default=0) >= 0, AtomvalNegativeError)
+        true_except(all(is_natural(_) for _ in atomvals), AtomvalNegativeError)
         true_except(length == 2 ** valency, SarityVectorMismatchError)
 
     true_except(length > 0, ArgValueError)  # a truth table should at least have one digit
-- 
2.43.0


From a065456f7a3ec9c3779542f38cda011cc42508ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:51 +0000
Subject: [PATCH 30/38] fix: refuse elements outside the domain in SetPartComp

Complements were accepted, and refused equalities could leave a complement
pair removed.
---
 discretehelpers/set_part_comp/methods/set_comp/__init__.py  | 2 ++
 discretehelpers/set_part_comp/methods/set_equal/__init__.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/discretehelpers/set_part_comp/methods/set_comp/__init__.py b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
index ed59262..868ab2c 100644
--- a/discretehelpers/set_part_comp/methods/set_comp/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
@@ -1,10 +1,12 @@
 from discretehelpers.a import true_except, have
+from discretehelpers.set_part.ex import NotInDomainError
 
 from ...helpers import _representative, _representatives, _pair
 from ...ex import *
 
 
 def set_comp(self, a, b):
+    true_except(self.equal_part.element_in_domain(a) and self.equal_part.element_in_domain(b), NotInDomainError)
     true_except(not self.are_equal(a, b), SetCompEqualsError)
     if self.are_comp(a, b):
         return  # nothing to do
diff --git a/discretehelpers/set_part_comp/methods/set_equal/__init__.py b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
index 44d6fe6..481859b 100644
--- a/discretehelpers/set_part_comp/methods/set_equal/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
@@ -1,10 +1,12 @@
 from discretehelpers.a import true_except, have
+from discretehelpers.set_part.ex import NotInDomainError
 
 from ...helpers import _representative, _representatives, _pair
 from ...ex import *
 
 
 def set_equal(self, a, b):
+    true_except(self.equal_part.element_in_domain(a) and self.equal_part.element_in_domain(b), NotInDomainError)
     true_except(not self.are_comp(a, b), SetEqualComplementsError)
     if self.are_equal(a, b):
         return  # nothing to do
-- 
2.43.0


From 1db531a4cf68b657634eeff2fb4f43b35a3ec90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:21 +0000
Subject: [PATCH 31/38] fix: refuse constant truth tables whose length is not a
 power of two

---
 discretehelpers/boolf/subinit_methods/tt/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 8dcd7fd..9d08388 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -1,4 +1,4 @@
-from discretehelpers.a import have, is_natural, true_except, subinit_bouncer, type_clean_int
+from discretehelpers.a import have, is_natural, is_power_of_two, true_except, subinit_bouncer, type_clean_int
 
 from discretehelpers.boolf.a import reorder_if_atomvals_not_asc
 from discretehelpers.boolf.ex import AtomvalsNotUniqueError, SarityVectorMismatchError, AtomvalNegativeError
@@ -43,6 +43,7 @@ def _subinit_truth_table(self):
         true_except(length == 2 ** valency, SarityVectorMismatchError)
 
     true_except(length > 0, ArgValueError)  # a truth table should at least have one digit
+    true_except(is_power_of_two(length), ArgValueError)
 
     if weight in [0, length] and not skip_deflation:  # if only 0s or only 1s
         self.set_constant(bool(weight))  # tautology if weight not 0
-- 
2.43.0


From 19bdebd5b7c82d9a9fddadf80d3bdca2cb2f8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:37 +0000
Subject: [PATCH 32/38] fix: accept lists and binary vectors as signets of
 truth tables

The attribute of binary vectors is called intval.
---
 discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
index c7611e2..a9347f4 100644
--- a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
+++ b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
@@ -7,9 +7,9 @@ def mod_tt_neg(tt, signet):
         signet_index = signet
     elif type(signet) == list:
         signet_binv = Binv(signet)
-        signet_index = signet_binv.index
+        signet_index = signet_binv.intval
     elif type(signet) == Binv:
-        signet_index = signet.index
+        signet_index = signet.intval
 
     perm = [_ ^ signet_index for _ in range(len(tt))]
 
-- 
2.43.0


From 6a70d4f3014d95d287940f3b807671104deb6cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:13 +0000
Subject: [PATCH 33/38] fix: read digits given as strings when negating signed
 indices

---
 discretehelpers/a/logic_negate/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/a/logic_negate/__init__.py b/discretehelpers/a/logic_negate/__init__.py
index 2cf3574..80694e4 100644
--- a/discretehelpers/a/logic_negate/__init__.py
+++ b/discretehelpers/a/logic_negate/__init__.py
@@ -5,7 +5,7 @@ from discretehelpers.ex import ArgComboError, ArgMismatchError, ArgValueError
 
 def logic_negate(value, do_it=True, want_string=False):
     true_except(type(value) == int and do_it in [False, 0, '0', True, 1, '1'], ArgValueError)
-    result_value = ~value if do_it else value
+    result_value = ~value if int(do_it) else value
     if not want_string:
         return result_value
     else:
@@ -31,11 +31,11 @@ def logic_negate_vector(values, where=None, which=None, want_string=False):
         true_except(len(values) == len(where), ArgMismatchError)
         true_except(set([int(_) for _ in where]).issubset({0, 1}), ArgValueError)
         if not want_string:
-            return [~values[_] if where[_] else values[_] for _ in range(len(values))]
+            return [~values[_] if int(where[_]) else values[_] for _ in range(len(values))]
         else:
             list_of_strings = [
                 logic_negate(values[_], want_string=True)
-                if where[_]
+                if int(where[_])
                 else logic_negate(values[_], do_it=False, want_string=True)
                 for _ in range(len(values))
             ]
-- 
2.43.0


From 5ae711446d43a9c68dbf4dcf0f47ff147c2ded25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:20 +0000
Subject: [PATCH 34/38] fix: take the permutation symmetry of a function within
 its own arguments

---
 .../boolf/metributes/perm_symmetry_partition/__init__.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/metributes/perm_symmetry_partition/__init__.py b/discretehelpers/boolf/metributes/perm_symmetry_partition/__init__.py
index 8ece4ba..26e294e 100644
--- a/discretehelpers/boolf/metributes/perm_symmetry_partition/__init__.py
+++ b/discretehelpers/boolf/metributes/perm_symmetry_partition/__init__.py
@@ -8,9 +8,9 @@ from discretehelpers.set_part import SetPart
 def perm_symmetry_partition(self):
 
     boolf = self.root_boolf
-    tt = boolf.tt(self.adicity)
+    tt = boolf.tt(boolf.adicity)
 
-    domain = list(range(2 ** self.adicity))
+    domain = list(range(2 ** boolf.adicity))
 
     setpart = SetPart([], domain=domain)
 
-- 
2.43.0


From 1fef366cbcdecc27a59d31bed28793a440d95cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:51 +0000
Subject: [PATCH 35/38] fix: show the exact digits of values close to 1 in the
 wiki table row

---
 discretehelpers/boolf/methods/wiki_table_row/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/wiki_table_row/__init__.py b/discretehelpers/boolf/methods/wiki_table_row/__init__.py
index f52d663..f8d7602 100644
--- a/discretehelpers/boolf/methods/wiki_table_row/__init__.py
+++ b/discretehelpers/boolf/methods/wiki_table_row/__init__.py
@@ -52,7 +52,7 @@ def wiki_table_row(self, names_cell):
 
     wnum_big = int(wnum * reducing_factor)
 
-    vdec = format(vnum / vden, '.20f')[1::]  # with trailing zeros
+    vdec = '.' + str(vnum % vden * 10 ** 20 // vden).zfill(20)  # with trailing zeros
     wdec = format(wnum / wden, '.20g')[1::]  # without trailing zeros
 
     zhegalkin = self.zhe
-- 
2.43.0


From 58521c052d478a1cd368cb2b58ed15d57da9191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:47 +0000
Subject: [PATCH 36/38] fix: keep arguments of function without true places
 when deflation is skipped

---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 87cd013..ba39129 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -23,7 +23,7 @@ def _subinit_fullspots(self):
     else:
         atomvals = list(range(arity))
 
-    if len(fullspots) == 0:  # constant False
+    if len(fullspots) == 0 and not (self._doda['sd'] and atomvals):  # constant False
         self.set_constant(False)
         return True
 
-- 
2.43.0


From 6fdabfab6c5f5d2f626fb7d362eda2bd2c9940d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:57 +0000
Subject: [PATCH 37/38] fix: exact order of permutations with many cycle
 lengths

The least common multiple was calculated with fixed size integers. It overflowed for permutations with many different cycle lengths.
---
 discretehelpers/perm/metributes/order.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/perm/metributes/order.py b/discretehelpers/perm/metributes/order.py
index c14032c..effbf7c 100644
--- a/discretehelpers/perm/metributes/order.py
+++ b/discretehelpers/perm/metributes/order.py
@@ -1,6 +1,5 @@
 from functools import cached_property
-
-import numpy as np
+from math import lcm
 
 
 @cached_property
@@ -12,6 +11,6 @@ def order(self):
         return 1
 
     cycle_lengths = [len(cycle) for cycle in self.cycles]
-    result = np.lcm.reduce(cycle_lengths)
+    result = lcm(*cycle_lengths)  # exact, does not overflow
 
     return result
-- 
2.43.0


From 72616ac2656c3a4c3c2d953d83a78b28530add77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:27 +0000
Subject: [PATCH 38/38] fix: print complement pairs in ascending order

Equal partitions with complements could have different printed forms,
because the pairs were printed in the order of the set they are stored in.
---
 discretehelpers/set_part_comp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 54acaa2..8f6954a 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -65,7 +65,8 @@ class SetPartComp():
         blocks = self.equal_part.blocks
         pairs = self.comp_pairs
         if len(pairs):
-            return f'SetPartComp({blocks}, {pairs})'
+            pairs_string = ', '.join(str(pair) for pair in sorted(pairs))  # independent of the order in the set
+            return f'SetPartComp({blocks}, {{{pairs_string}}})'
         else:
             return f'SetPartComp({blocks})'
 
-- 
2.43.0

