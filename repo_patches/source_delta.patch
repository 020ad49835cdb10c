From 17f44618479ecd3c3f3babe58971b228df84545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 01/44] fix: compose TLExtDiag products in the documented order
 (x on top of y)

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5981422..0bf0965 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -306,7 +306,7 @@ class TLExtDiag:
             if self.bot != other.top:
                 raise ValueError("Trying to compose incompatible TLDiags.")
 
-            seq, bubbles = compose(other.seq, self.seq, self.bot)
+            seq, bubbles = compose(self.seq, other.seq, self.bot)
             return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
 
         return NotImplemented
-- 
2.43.0


From ad1791ba6fde4be17c7294eac6b1a9a5c417b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 02/44] fix: honour twist_v=False in TLMor.flip

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 0bf0965..af8d216 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -450,7 +450,7 @@ class TLMor:
         """Apply the upside-down flip to the diagrams. If twist_v is True, also map v -> v^-1."""
         vinv = LPoly(-1, (1,))
         return TLMor(self.bot, self.top, {
-            diag.flip(): coeff.evaluate(vinv) for diag, coeff in self.terms.items()
+            diag.flip(): coeff.evaluate(vinv) if twist_v else coeff for diag, coeff in self.terms.items()
         })
 
     def __neg__(self):
-- 
2.43.0


From c06e607a73c5f7171a9b8f6b66fb9e4f041f6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 03/44] fix: include the last cell module TLCell(n, n//2) in
 JonesRep

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index af8d216..5d6af3f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -550,7 +550,7 @@ class JonesRep:
         assert n >= 0
 
         self.n = n
-        self.cells = [TLCell(n, r) for r in range(n//2)]
+        self.cells = [TLCell(n, r) for r in range(n//2 + 1)]
 
 
 
-- 
2.43.0


From d4e07fa84570be6d7082cda846ee439eaae02eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 04/44] fix: TLCell.project_vector accepts the morphisms it
 projects, those in TL(n, n - 2r)

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5d6af3f..1c66360 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -516,7 +516,7 @@ class TLCell:
 
     def project_vector(self, mor: TLMor):
         """Return the projection of mor, as a vector, into this cell module."""
-        assert mor.bot == self.n, f"Dimensions {mor.bot=} and {self.n=} incompatible."
+        assert (mor.top, mor.bot) == (self.n, self.n - 2 * self.r), f"Dimensions ({mor.top}, {mor.bot}) incompatible with {self}."
         return mor.quotient(self.n - 2 * self.r)
 
     def project_leftmult_matrix(self, mor: TLMor):
-- 
2.43.0


From afd995331ec109fa1a2ad65bc80ab5132b1df952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 05/44] fix: LKBRep returns the inverse matrices of the Artin
 generators

---
 peyl/jonesrep.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 24cd2bc..c83b0e0 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -327,4 +327,11 @@ class LKBRep(RepBase):
             ])
             gens += [mat]
 
-        return gens, gens
+        # Each generator satisfies (x - 1)(x + q)(x - tq^2) = 0, so x^-1 is a combination of x^2, x and 1.
+        trace, minors, det = 1 - q + t*q*q, t*q*q - q - t*q*q*q, -t*q*q*q
+        identity = Matrix.identity(self.dimension())
+        invs = [
+            Matrix(gen.nrows, gen.ncols, tuple((a - trace*b + minors*c) * det**-1 for a, b, c in zip((gen * gen).data, gen.data, identity.data)))
+            for gen in gens
+        ]
+        return gens, invs
-- 
2.43.0


From 9b78be0f132ade04bedb65fe96e19f9a2277a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 06/44] fix: RepBase.polymat_artin_gens_invs no longer fails on
 inverses with negative powers of v

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index c83b0e0..15b9881 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -117,7 +117,7 @@ class RepBase:
         """
         gens, invs = self.artin_gens_invs()
         matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
-        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in invs])
+        matinvs = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in invs])
         if self.p != 0:
             matgens %= self.p
             matinvs %= self.p
-- 
2.43.0


From a5549510817e3009a386a186c81aa732a33f5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 07/44] fix: reduce powers of the Garside element mod p when
 evaluating them as polymats

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 15b9881..84420b5 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -136,8 +136,8 @@ class RepBase:
         """
         table = cls._nf_table(self.n)
         assert 0 <= power < table.tau_order, "Only reduced powers should be passed to this function."
-        mat = self.evaluate_artin_word(table.artin_word[table.D])
-        return polymat.projectivise(polymat.from_matrix(mat ** power, proj=True))
+        mat = self.evaluate_artin_word(table.artin_word[table.D] * power)
+        return polymat.projectivise(polymat.from_matrix(mat, proj=True))
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
-- 
2.43.0


From 4ea248bbbfc9f6f41709704b27b0897b1310799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 08/44] fix: evaluating empty factor sequences returns one
 image per sequence

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 84420b5..ff455e8 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -204,7 +204,7 @@ class RepBase:
         assert all(0 <= x < order for seq in sequences for x in seq)
 
         # Evaluate the braids.
-        result = polymat.pack([self._polymat_braid_factor(cls, table.id)])
+        result = polymat.pack([self._polymat_braid_factor(cls, table.id)] * len(sequences))
         for i in range(length):
             images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])
             result = self.polymat_mul(result, images)
-- 
2.43.0


From 9cbbb73d63bfeb87b7752ca703ff63de36012f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 09/44] fix: BraidGroup.all_of_garside_length passes on the
 power of the Garside element

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4e5b6ba..d557ce7 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -782,7 +782,7 @@ class BraidGroup:
 
     def all_of_garside_length(self, length: int, power: int = 0) -> Iterable[GNF]:
         """Use GNF.all_of_length() or DGNF.all_of_length() instead."""
-        return GNF.all_of_length(n=self.n, length=length)
+        return GNF.all_of_length(n=self.n, length=length, power=power)
 
     def count_all_of_garside_length(self, length: int):
         """Use GNF.count_all_of_length() or DGNF.count_all_of_length() instead."""
-- 
2.43.0


From cf5c82d5b8dbf6ee2c7f9108fb6ab3f4a665821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 10/44] fix: create the Artin and BKL generators of B_2, where
 the generator is the Garside element

---
 peyl/braid.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index d557ce7..4c13478 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -367,7 +367,7 @@ class NFBase(Generic[T]):
     def artin_gens(cls, n: int):
         """Return a list of the n-1 Artin generators."""
 
-        return [cls(n, 0, (f,)) for f in cls._nf_table(n).artin_gens]
+        return [cls.from_artin_word(n, [(i, 1)]) for i in range(n - 1)]
 
     def canonical_factors(self) -> tuple[T, ...]:
         """
@@ -647,7 +647,7 @@ class DGNF(NFBase[NPar]):
         id = DGNF.identity(n)
         table = DGNF._nf_table(n)
         return {
-            (i, j): id if i == j else DGNF(n, 0, (table.bkl_gens[(min(i, j), max(i, j))],))
+            (i, j): id if i == j else DGNF.from_npar(table.divs[table.bkl_gens[(min(i, j), max(i, j))]])
             for i in range(n) for j in range(n)
         }
 
@@ -726,8 +726,7 @@ class BraidGroup:
     @functools.cache
     def gens(self) -> tuple[GNF, ...]:
         """Return the Artin generators of the braid group, as GNFs."""
-        table = PermTable.create(self.n)
-        return tuple(GNF(self.n, 0, (table.artin_gens[i],)) for i in range(self.n - 1))
+        return tuple(GNF.artin_gens(self.n))
 
     @functools.cache
     def bkl_gens(self) -> dict[tuple[int, int], DGNF]:
@@ -737,8 +736,8 @@ class BraidGroup:
         """
         table = NParTable.create(self.n)
         return {
-            **{gen: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{gen[::-1]: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
+            **{gen: self.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
+            **{gen[::-1]: self.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
             **{(i, i): DGNF.identity(self.n) for i in range(self.n)},
         }
 
-- 
2.43.0


From 5e7f4a4110c8f53384b6367090b4ac8bdead1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 11/44] fix: nf_suffixes of a braid with nonzero infimum do not
 repeat its power of the Garside element

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4c13478..222bee7 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -492,7 +492,7 @@ class NFBase(Generic[T]):
         """Return all x such that self * x has no cancellation, and x has the given length."""
         table = self._nf_table(self.n)
         return (
-            self.__class__(self.n, self.power, suffix)
+            self.__class__(self.n, 0, suffix)
             for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None)
         )
 
-- 
2.43.0


From bea5786c026f261b977c47fda801859fa4d65cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 12/44] fix: SymmetricGroup.from_cycle closes cycles shorter
 than n, and from_cycles multiplies from the identity

---
 peyl/permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 39be001..f55d56b 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -368,14 +368,14 @@ class SymmetricGroup:
         assert max(collections.Counter(cycle).values()) <= 1
         word = list(range(self.n))
         for i in range(len(cycle)):
-            word[cycle[i]] = cycle[(i+1)%self.n]
+            word[cycle[i]] = cycle[(i+1)%len(cycle)]
 
         return Permutation(tuple(word))
 
 
     def from_cycles(self, cycles: Sequence[Sequence[int]]):
         """Create a permutation from a list of cycles (not necessarily disjoint)."""
-        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id)
+        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())
 
 
     def elements(self) -> Iterable[Permutation]:
-- 
2.43.0


From 9b1dc8473749d345ea14827213e08ee3b827551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 13/44] fix: print the constant term of a Poly

---
 peyl/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/poly.py b/peyl/poly.py
index 7346681..0e39069 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -71,7 +71,7 @@ class Poly:
 
             sign = ' + ' if (c > 0 and parts) else ' - ' if (c < 0 and parts) else '' if c > 0 else '-'
             term = '' if i == 0 else 'x' if i == 1 else f'x^{i}'
-            coeff = '1' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
+            coeff = f'{abs(c)}' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
             parts += [sign + coeff + term]
 
         return f"Poly('{''.join(parts)}')"
-- 
2.43.0


From b72e274dbc6a74d6b152aa16ab8a7a4221b3a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 14/44] fix: Matrix.row checks its index against the number of
 rows

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index e799623..18910fb 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -117,7 +117,7 @@ class Matrix:
         """
         Return a row of the matrix as a row vector.
         """
-        if not 0 <= row < self.ncols:
+        if not 0 <= row < self.nrows:
             raise IndexError(f"Row {row} is out of bounds for a {self.nrows} x {self.ncols} matrix.")
 
         return Matrix(1, self.ncols, tuple(self[row, j] for j in range(self.ncols)))
-- 
2.43.0


From a072bf551c4341f850546b8d018f3be59cf04ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 15/44] fix: Matrix.is_symmetric compares all entries, not just
 the diagonal

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 18910fb..6e7c435 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -231,7 +231,7 @@ class Matrix:
         return self.nrows == self.ncols
 
     def is_symmetric(self):
-        return all(self[i, j] == self[j, i] for i, j in zip(range(self.nrows), range(self.ncols)))
+        return self.is_square() and all(self[i, j] == self[j, i] for i, j in self.indices())
 
     def __repr__(self):
         """
-- 
2.43.0


From 2f47747d43b17ae8f3eb2f77ab6e7544ecd1d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 16/44] fix: return NotImplemented rather than None for
 unsupported operands

---
 peyl/matrix.py | 2 ++
 peyl/poly.py   | 2 ++
 peyl/tl.py     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 6e7c435..5e9ada4 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -215,6 +215,8 @@ class Matrix:
                 raise ValueError("Cannot subtract incompatibly sized matrices.")
             return Matrix(self.nrows, self.ncols, tuple(a - b for a, b in zip(self.data, other.data)))
 
+        return NotImplemented
+
     def trace(self):
         """
         The trace of a square matrix is the sum of the diagonal entries.
diff --git a/peyl/poly.py b/peyl/poly.py
index 0e39069..4c4a80d 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -96,6 +96,8 @@ class Poly:
                 result[i+j] += c*d
             return Poly(*result)
 
+        return NotImplemented
+
     __radd__ = __add__
     __rmul__ = __mul__
 
diff --git a/peyl/tl.py b/peyl/tl.py
index 1c66360..cb6eec3 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -193,6 +193,8 @@ class TLDiag:
             seq, bubbles = compose(upper.seq, lower.seq, upper.bot)
             return TLDiag(upper.top, lower.bot, seq), bubbles
 
+        return NotImplemented
+
     def __matmul__(self, other: TLDiag) -> TLDiag:
         """Horizontal composition of TL diagrams, returning a new TLDiag."""
         return TLDiag(
-- 
2.43.0


From 3161244bfd7ab0563415a965423276039fc39bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 17/44] fix: run the NPar validity check, which was misspelt
 and never called

---
 peyl/noncrossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 91d2e8f..18fc7f2 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -97,7 +97,7 @@ class NPar:
     n: int
     inv: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         """Check that inv is really an involution of the right kind."""
         assert len(self.inv) == 2*self.n
         assert tl.is_crossingless_matching(self.inv)
-- 
2.43.0


From bc7039d6d056d220527ea5a61ec2ebf2566f12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 18/44] fix: NPar.from_components accepts one-shot iterables

---
 peyl/noncrossing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 18fc7f2..b321559 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -137,6 +137,7 @@ class NPar:
         >>> NPar.coarsest(4) == NPar.from_components(4, [[0, 1, 3, 2]])
         True
         """
+        components = [list(comp) for comp in components]
         if not are_pairwise_disjoint(components):
             raise ValueError(f"The components {components} do not form a partition.")
 
-- 
2.43.0


From 68ce8f0f20d5b65f0b6526b285a6538bf4df8c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 19/44] fix: projlen of a zero matrix is zero

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3483d90..8cf9cde 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -276,7 +276,7 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-    return ends - starts
+    return (ends - starts) * np.any(nonzeros, axis=-1)
 
 def proj_starts_ends(A: npt.NDArray) -> Tuple[npt.NDArray, npt.NDArray]:
     """
-- 
2.43.0


From a7ef8bc190a982115275e691396806534cf93a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 20/44] fix: polymat.to_matrix returns exact integer
 coefficients

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 8cf9cde..3054dd1 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -150,7 +150,7 @@ def to_matrix(A):
     assert len(A.shape) == 3
     I, J, _ = A.shape
     return Matrix.from_rows([
-        [LPoly(0, A[i, j, :]) for j in range(J)]
+        [LPoly(0, A[i, j, :].tolist()) for j in range(J)]
         for i in range(I)
     ])
 
-- 
2.43.0


From 9129450968ab47372bd9cd1b9800d66f3af92d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 21/44] fix: polymat.from_matrix converts matrices mixing
 integers and Laurent polynomials, and honours dtype

---
 peyl/polymat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3054dd1..904ec8d 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -160,11 +160,12 @@ def from_matrix(mat: Matrix, proj: bool = False, dtype: npt.DTypeLike = np.int64
     If proj is true, then the matrix will be multiplied by a power of v, making it a polynomial matrix first.
     """
     if all(isinstance(x, int) for x in mat.data):
-        return np.array(mat.rows())[..., None]
+        return np.array(mat.rows(), dtype=dtype)[..., None]
 
+    mat = mat.map(LPoly.coerce)
     if all(isinstance(x, LPoly) for x in mat.data):
         if all(x.is_zero() for x in mat.data):
-            return np.zeros((mat.nrows, mat.ncols, 1), dtype=int)
+            return np.zeros((mat.nrows, mat.ncols, 1), dtype=dtype)
 
         minval = min(x.valuation() for x in mat.data if not x.is_zero())
         if minval < 0:
-- 
2.43.0


From 8b9bf07530631d159a7944b654e4520043ec8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 22/44] fix: JonesSummand.dimension of the trivial summand r =
 0

---
 peyl/braidsearch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6d9df14..2ca70c0 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -85,6 +85,10 @@ class JonesSummand:
 
     def dimension(self) -> int:
         """The dimension of this representation."""
+        # math.comb errors if it gets a negative second argument.
+        if self.r == 0:
+            return 1
+
         return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)
 
     @functools.cache
-- 
2.43.0


From dc683a5e1c555207b0b9e9fca8f91adc1bbb1e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 23/44] fix: braidsearch.Tracker.valiate_buckets evaluates in
 the tracked representation

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 2ca70c0..5b79e9e 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -412,7 +412,7 @@ class Tracker:
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
-            actual = evaluate_braids_of_same_length(BraidGroup(braids[0].n), braids, p=self.p)
+            actual = evaluate_braids_of_same_length(self.rep, braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
-- 
2.43.0


From 5ac4f4232f6591b63b63d8d85f2406a8ac81ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 24/44] fix: AChao sampling does not divide by a zero total
 weight

---
 peyl/bucketing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 61aeec5..ea8c0a5 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -330,7 +330,7 @@ class Tracker:
                     if not bucket.is_full():
                         bucket.append_braid(braid, image, weight)
                     else:
-                        if self.rand.random() <= weight / bucket.reservoir_weight:
+                        if self.rand.random() * bucket.reservoir_weight <= weight:
                             replace = self.rand.randrange(0, bucket.capacity)
                             bucket.replace_braid(replace, braid, image, weight)
 
-- 
2.43.0


From b9f04a8eb61c921a27331bce63bad8fd4c504b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 25/44] fix: bucketing.Tracker.nf_descendants handles braids of
 canonical length zero

---
 peyl/bucketing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index ea8c0a5..b094111 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -360,21 +360,21 @@ class Tracker:
 
         # Let's sort this bucket first, so that elements ending in the same normal form factor appear next to each other.
         bucket_braids, bucket_images = self.buckets[tag].braids_images()
-        last_factors = np.array([braid.factors[-1] for braid in bucket_braids])
+        last_factors = np.array([braid.factors[-1] if braid.factors else -1 for braid in bucket_braids])
         sorted_indices = np.argsort(last_factors)
 
         sorted_braids = [bucket_braids[i] for i in sorted_indices]
         sorted_images = bucket_images[sorted_indices]
 
         # Now we can iterate through each group ending in the same factor.
-        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1]):
+        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: last_factors[sorted_indices[i]]):
             index_list = list(indices)
             chunk = slice(min(index_list), max(index_list)+1)
             braids = sorted_braids[chunk]
             left = sorted_images[chunk]
 
             # Cache suffixes and their images depending on the last factor.
-            last_factor = braids[0].canonical_factor(-1)
+            last_factor = braids[0].canonical_factor(-1) if braids[0].factors else braids[0].__class__
             if (length, last_factor) not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
-- 
2.43.0


From 6955f869906c8770aa2f90f4877b978e53a032b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 26/44] fix: the identity of a representation has Laurent
 polynomial entries, like every other image

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index ff455e8..6ef048e 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -75,7 +75,7 @@ class RepBase:
 
     def id(self) -> Matrix:
         """The identity matrix for this representation."""
-        return Matrix.identity(self.dimension())
+        return Matrix.identity(self.dimension()).map(LPoly.coerce)
 
     def polymat_dtype(self):
         """The dtype which should be used for elements of this representation."""
-- 
2.43.0


From e24e9d8056ec761b5ecf1dc87bf1fe4e91e40df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 27/44] fix: reject normal form factors which are not indices
 of divisors

---
 peyl/braid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 222bee7..30d5721 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -82,8 +82,11 @@ class NFTable(Generic[T]):
         """
         Return whether the list of factors is in normal form, meaning that
         no D's appear at the start, no identities appear at the back, and
-        every other pair (x, y) is in normal form.
+        every other pair (x, y) is in normal form. Every factor must be an
+        index of a divisor, i.e. lie in the range [0, order).
         """
+        if not all(0 <= factor < self.order for factor in factors):
+            return False
         for i in range(len(factors) - 1):
             if not self.is_normalised[factors[i]][factors[i+1]]:
                 return False
-- 
2.43.0


From 047754d751239ff0098aa5d3d2bc0858ef309854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 28/44] fix: reject braids whose strands, power or factors are
 not integers

---
 peyl/braid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 30d5721..e175cb6 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -23,6 +23,7 @@ import dataclasses
 import functools
 import itertools
 import math
+import numbers
 import operator
 import random
 from collections import defaultdict
@@ -85,7 +86,7 @@ class NFTable(Generic[T]):
         every other pair (x, y) is in normal form. Every factor must be an
         index of a divisor, i.e. lie in the range [0, order).
         """
-        if not all(0 <= factor < self.order for factor in factors):
+        if not all(isinstance(factor, (int, numbers.Integral)) and 0 <= factor < self.order for factor in factors):
             return False
         for i in range(len(factors) - 1):
             if not self.is_normalised[factors[i]][factors[i+1]]:
@@ -359,6 +360,7 @@ class NFBase(Generic[T]):
 
     def __post_init__(self):
         """Assert that the factors we have been given are in normal form."""
+        assert isinstance(self.n, numbers.Integral) and isinstance(self.power, numbers.Integral), f"The strands {self.n} and power {self.power} must be integers."
         assert self._nf_table(self.n).is_factors_normalised(self.factors), f"The factors {self.factors} are not normalised."
 
     @classmethod
-- 
2.43.0


From bc5037222faac271badcacadd3e480f6de3f8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 29/44] fix: run the validity checks of Permutation and
 SymmetricGroup, which were misspelt and never called

---
 peyl/permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index f55d56b..2b90a70 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -339,7 +339,7 @@ def is_parallel_descending_cycles(perm: Sequence[int]) -> bool:
 class SymmetricGroup:
     n: int
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert self.n >= 0
 
     @functools.cache
@@ -387,7 +387,7 @@ class SymmetricGroup:
 class Permutation:
     word: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert is_permutation(self.word)
 
     def group(self):
-- 
2.43.0


From 959f023cfcf0fa88bd7f9fc003781807ed0b300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 30/44] fix: pack generator images that have negative powers of
 v

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 6ef048e..0b4fd3f 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -116,7 +116,7 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
-        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
+        matgens = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in gens])
         matinvs = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in invs])
         if self.p != 0:
             matgens %= self.p
-- 
2.43.0


From bebeb2239c372118997a84673496eb202b86ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 31/44] fix: file search tracker buckets by the bucket keys
 asked for

---
 peyl/braidsearch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 5b79e9e..6951efa 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -436,14 +436,13 @@ class Tracker:
         keep = self.criterion(stats)
         indices = [i for i in range(len(keep)) if keep[i]]
 
-        lengths = [braid.garside_length() for braid in braids]
-        projlens = polymat.projlen(images)
+        tags = list(zip(*(stats[key].tolist() for key in self.bucket_keys)))
         self.minimise(images)
 
         kept = []
         for i in indices:
             braid, image = braids[i], images[i]
-            bucket = (lengths[i], projlens[i])
+            bucket = tags[i]
 
             if bucket not in self.buckets:
                 self.buckets |= {bucket}
-- 
2.43.0


From 7f18f5e331b7d9943724ca1cd5309ba0a087ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 32/44] fix: refuse exponents which are not integers instead of
 rounding them

---
 peyl/braid.py  | 3 +++
 peyl/lpoly.py  | 3 +++
 peyl/matrix.py | 4 ++++
 peyl/poly.py   | 3 +++
 peyl/tl.py     | 4 ++++
 5 files changed, 17 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index e175cb6..624a330 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -444,6 +444,9 @@ class NFBase(Generic[T]):
         return self.__class__(self.n, delta_pow + d, tuple(normalised))
 
     def __pow__(self: NF, exp: int) -> NF:
+        if not isinstance(exp, numbers.Integral):
+            return NotImplemented
+
         acc = self.identity(self.n)
         if exp == 0:
             return acc
diff --git a/peyl/lpoly.py b/peyl/lpoly.py
index 2db5763..0589883 100644
--- a/peyl/lpoly.py
+++ b/peyl/lpoly.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import dataclasses
 import itertools
+import numbers
 from typing import Callable, Literal, Sequence
 
 from .poly import Poly
@@ -159,6 +160,8 @@ class LPoly:
     __rmul__ = __mul__
 
     def __pow__(self, n: int):
+        if not isinstance(n, numbers.Integral):
+            return NotImplemented
         if n < 0:
             if self.coeffs == (1,) or self.coeffs == (-1,):
                 return LPoly(-self.val, self.coeffs)**-n
diff --git a/peyl/matrix.py b/peyl/matrix.py
index 5e9ada4..adda464 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import dataclasses
+import numbers
 from typing import Callable
 
 
@@ -184,6 +185,9 @@ class Matrix:
         return NotImplemented
 
     def __pow__(self, exp: int):
+        if not isinstance(exp, numbers.Integral):
+            return NotImplemented
+
         if self.nrows != self.ncols:
             raise ValueError("Can only take powers of square matrices")
 
diff --git a/peyl/poly.py b/peyl/poly.py
index 4c4a80d..df21441 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -9,6 +9,7 @@ from __future__ import annotations
 import dataclasses
 import functools
 import itertools
+import numbers
 
 
 @dataclasses.dataclass(init=False, eq=True)
@@ -102,6 +103,8 @@ class Poly:
     __rmul__ = __mul__
 
     def __pow__(self, n: int):
+        if not isinstance(n, numbers.Integral):
+            return NotImplemented
         if n < 0:
             raise ValueError("Cannot invert a polynomial.")
         if n == 0:
diff --git a/peyl/tl.py b/peyl/tl.py
index cb6eec3..60f0c74 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 import dataclasses
 import functools
 import math
+import numbers
 from typing import Iterable, Sequence
 
 from .lpoly import LPoly
@@ -468,6 +469,9 @@ class TLMor:
         return NotImplemented
 
     def __pow__(self, exp: int):
+        if not isinstance(exp, numbers.Integral):
+            return NotImplemented
+
         if self.top != self.bot:
             raise ValueError("Cannot raise a morphism to the power in a non-algebra")
 
-- 
2.43.0


From ec2c77178145bdacacd43f028d94da038016c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 33/44] fix: polynomial sums and quotients refuse operands of
 other types

---
 peyl/poly.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/peyl/poly.py b/peyl/poly.py
index df21441..b2f09cf 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -78,10 +78,14 @@ class Poly:
         return f"Poly('{''.join(parts)}')"
 
     def __add__(self, other: int | Poly) -> Poly:
+        if not isinstance(other, (int, Poly)):
+            return NotImplemented
         coeffs = [other] if isinstance(other, int) else other.coeffs
         return Poly(*(c + d for c, d in itertools.zip_longest(self.coeffs, coeffs, fillvalue=0)))
 
     def __sub__(self, other: int | Poly) -> Poly:
+        if not isinstance(other, (int, Poly)):
+            return NotImplemented
         coeffs = [other] if isinstance(other, int) else other.coeffs
         return Poly(*(c - d for c, d in itertools.zip_longest(self.coeffs, coeffs, fillvalue=0)))
 
@@ -128,6 +132,8 @@ class Poly:
         >>> divmod(Poly(-1, 0, 0, 1), Poly(-1, 1))  # x^3 - 1 / x - 1
         (Poly('x^2 + x + 1'), Poly('0'))
         """
+        if not isinstance(d, Poly):
+            return NotImplemented
         assert not all(c == 0 for c in d.coeffs)
 
         q, r = Poly(), n
@@ -144,6 +150,8 @@ class Poly:
 
     def __truediv__(n: Poly, d: Poly) -> Poly:
         """Return n/d if n is divisible by d, otherwise raise an error."""
+        if not isinstance(d, Poly):
+            return NotImplemented
         quo, rem = divmod(n, d)
         if not rem.is_zero():
             raise ValueError(f"{n} is not divisible by {d}: it has remainder {rem}")
-- 
2.43.0


From 5ea4f3aeab9686c324953c3316035014a03cc400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 34/44] fix: quotients of Laurent polynomials refuse operands
 of other types

---
 peyl/lpoly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/lpoly.py b/peyl/lpoly.py
index 0589883..cc64c47 100644
--- a/peyl/lpoly.py
+++ b/peyl/lpoly.py
@@ -175,6 +175,8 @@ class LPoly:
         return sqrt * sqrt if n % 2 == 0 else sqrt * sqrt * self
 
     def __truediv__(self, other: LPoly):
+        if not isinstance(other, LPoly):
+            return NotImplemented
         return LPoly(self.val - other.val, (Poly(*self.coeffs) / Poly(*other.coeffs)).coeffs)
 
     def map(self, f: Callable[[int], int]):
-- 
2.43.0


From fe77b87c54b0743c55f8f75d3a60d188526b8c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 35/44] fix: tensor products of diagrams refuse operands of
 other types

---
 peyl/tl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/tl.py b/peyl/tl.py
index 60f0c74..83768e3 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -198,6 +198,9 @@ class TLDiag:
 
     def __matmul__(self, other: TLDiag) -> TLDiag:
         """Horizontal composition of TL diagrams, returning a new TLDiag."""
+        if not isinstance(other, TLDiag):
+            return NotImplemented
+
         return TLDiag(
             self.top + other.top,
             self.bot + other.bot,
-- 
2.43.0


From b239eab0be27c77c78f0409c53a84ef475b8c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 36/44] fix: refuse the trace of a morphism between different
 objects

---
 peyl/tl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/tl.py b/peyl/tl.py
index 83768e3..94c26ce 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -398,6 +398,9 @@ class TLMor:
 
     def trace(self):
         """The Markov trace of this element."""
+        if self.top != self.bot:
+            raise ValueError("Cannot take the trace of a morphism in a non-algebra")
+
         result = LPoly(0, ())
         for diag, coeff in self.terms.items():
             result += coeff * Q2**trace_count(diag.seq)
-- 
2.43.0


From 0fc234be80589d77f7e48b0578c61b9dffa5a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 37/44] fix: refuse morphisms between negative objects and
 negative numbers of bubbles

---
 peyl/tl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/tl.py b/peyl/tl.py
index 94c26ce..8307b7c 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -277,6 +277,7 @@ class TLExtDiag:
         assert 0 <= bot
         assert top + bot == len(seq)
         assert is_crossingless_matching(seq)
+        assert 0 <= bubbles
 
         self.top = top
         self.bot = bot
@@ -343,6 +344,7 @@ class TLMor:
     terms: dict[TLDiag, LPoly]
 
     def __init__(self, top: int, bot: int, terms: dict[TLDiag, LPoly]):
+        assert 0 <= top and 0 <= bot
         for diag, coeff in terms.items():
             if diag.top != top or diag.bot != bot:
                 raise ValueError(f"A diagram has type ({diag.top}, {diag.bot}), incompatible with ({top}, {bot})")
-- 
2.43.0


From 568c8489a42f27a3d8e45f5cf5c6375b70c38d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 38/44] fix: refuse words with negative generator indices

---
 peyl/braid.py    | 2 ++
 peyl/jonesrep.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index 624a330..672cd9c 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -572,6 +572,7 @@ class GNF(NFBase[Permutation]):
         factors = []
         delta_pows = []
         for i, e in word:
+            assert 0 <= i < n - 1, f"There is no generator {i} in the braid group on {n} strands."
             if e >= 0:
                 factors += [table.artin_gens[i]] * e
                 delta_pows += [0] * e
@@ -682,6 +683,7 @@ class DGNF(NFBase[NPar]):
         factors = []
         delta_pows = []
         for i, e in word:
+            assert 0 <= i < n - 1, f"There is no generator {i} in the braid group on {n} strands."
             if e >= 0:
                 factors += [table.artin_gens[i]] * e
                 delta_pows += [0] * e
diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 0b4fd3f..3c1a2eb 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -84,6 +84,8 @@ class RepBase:
     def evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation."""
         gens, invs = self.artin_gens_invs()
+        word = list(word)
+        assert all(0 <= i < self.n - 1 for i, _ in word), f"The word {word} should only use generators 0 to {self.n - 2}."
         product: Matrix = functools.reduce(operator.mul, [gens[i]**e if e >= 0 else invs[i]**abs(e) for i, e in word], self.id())
         if self.p != 0:
             product = product.map(lambda x: x if isinstance(x, int) else x.map(lambda n: n % self.p))
@@ -144,6 +146,7 @@ class RepBase:
         gens, invs = self.polymat_artin_gens_invs()
         product = self.polymat_id()
         for i, e in word:
+            assert 0 <= i < self.n - 1, f"There is no generator {i} in the braid group on {self.n} strands."
             for _ in range(abs(e)):
                 product = polymat.mul(product, gens[i] if e >= 0 else invs[i])
                 if self.p != 0:
-- 
2.43.0


From db0add046464e77707d429b775fb918b579843c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 39/44] fix: refuse to count or sample normal forms of negative
 length

---
 peyl/braid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index 672cd9c..8da1723 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -177,6 +177,8 @@ class NFTable(Generic[T]):
         """
         Count the number of normal forms that the same call to normal_forms() would produce.
         """
+        assert length >= 0
+
         if length == 0:
             return 1
 
@@ -195,6 +197,8 @@ class NFTable(Generic[T]):
 
     def sample(self, length: int, rand: random.Random) -> tuple[int, ...]:
         """Sample a normal form of the given length."""
+        assert length >= 0
+
         last = self.D
         factors = [-1] * length
         for i in range(length):
-- 
2.43.0


From 910d88cb33300a983c5719d86f8a6cb1984d9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 40/44] fix: refuse to evaluate braids of another braid group

---
 peyl/braidsearch.py | 5 +++--
 peyl/jonesrep.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6951efa..a0d7bbe 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -151,6 +151,7 @@ def symmetric_table(rep: JonesSummand):
 
 def evaluate_braid_factors(rep: JonesSummand, braid: GNF):
     """Evaluate the canonical factors of a braid in the given representation."""
+    assert braid.n == rep.n
     inf, factors = braid.canonical_decomposition()
     start = rep.id()
 
@@ -168,7 +169,7 @@ def evaluate_braids_of_same_length(rep: JonesSummand, braids: Sequence[GNF]) ->
     A single NDArray is returned.
     """
     length = braids[0].garside_length()
-    assert all(braid.garside_length() == length for braid in braids)
+    assert all(braid.garside_length() == length and braid.n == rep.n for braid in braids)
 
     factors = [braid.canonical_factors() for braid in braids]
     table = symmetric_table(rep)
@@ -191,7 +192,7 @@ def evaluate_prefixes_of_same_length(rep: JonesSummand, braids: Sequence[GNF]) -
     has length l+1, and the first element is the identity, the next f(1), the next f(1) f(2), etc.
     """
     length = braids[0].garside_length()
-    assert all(braid.garside_length() == length for braid in braids)
+    assert all(braid.garside_length() == length and braid.n == rep.n for braid in braids)
 
     factors = [braid.canonical_factors() for braid in braids]
     table = symmetric_table(rep)
diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 3c1a2eb..86a69cb 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -173,7 +173,7 @@ class RepBase:
         """
         length = braids[0].canonical_length()
         cls = braids[0].__class__
-        assert all(braid.canonical_length() == length and braid.__class__ == cls for braid in braids)
+        assert all(braid.canonical_length() == length and braid.__class__ == cls and braid.n == self.n for braid in braids)
 
         # First get all the powers of delta packed together.
         table = cls._nf_table(self.n)
-- 
2.43.0


From 8ec38a0f8d58df753bbd23e38cd77c672ee3e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 41/44] fix: refuse coordinate vectors with an index out of
 range

---
 peyl/matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index adda464..6e6982e 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -102,6 +102,7 @@ class Matrix:
     @classmethod
     def col_coord_vector(cls, n, i):
         """Return the coordinate vector e_i in n-dimensional space."""
+        assert 0 <= i < n
         return cls(n, 1, tuple(1 if i == j else 0 for j in range(n)))
 
     @classmethod
-- 
2.43.0


From 165c4e7047074a93cc586185baf5973bf113b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 42/44] fix: refuse unknown reservoir methods instead of
 keeping nothing

---
 peyl/bucketing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index b094111..a1ace64 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -201,6 +201,7 @@ class Tracker:
         self.reservoir_weight_braidstat = reservoir_weight
 
         # Method used for reservoir sampling.
+        assert reservoir_method in ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin')
         self.reservoir_method = reservoir_method
 
         # If rand is not None, then reservoir sampling will be used for the buckets.
-- 
2.43.0


From 3ab6195bfaec2b1890e7313e0cd30c62587b96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:49 +0000
Subject: [PATCH 43/44] fix: FramedMatrix column headings without an HTML form
 raised AttributeError, unlike row headings

---
 peyl/show.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/show.py b/peyl/show.py
index 9a22b96..68ffaf4 100644
--- a/peyl/show.py
+++ b/peyl/show.py
@@ -68,7 +68,7 @@ class FramedMatrix:
             # First row, with an empty cell at the start.
             '<tr>',
             '<td></td>',
-            *['<td style="text-align: center">' + x._repr_html_() + '</td>' for x in self.cols],
+            *['<td style="text-align: center">' + html_repr(x) + '</td>' for x in self.cols],
             '</tr>',
             ''.join([
                 html
-- 
2.43.0


From 3fe184f8f26f0df50c04a94134d90c990fed9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 44/44] fix: substring expansion left out most substrings

---
 peyl/braidsearch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index a0d7bbe..b5672df 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -510,13 +510,13 @@ class Tracker:
                 self.add_braids_images([braid * suffix.substring(0, i) for _, braid, suffix in pairs], images)
 
     def substrings(self, bucket: Tuple):
-        """Try all substrings of a bucket of length 2 or more."""
+        """Try all proper substrings of length 2 or more of the braids in a bucket."""
         assert bucket in self.buckets
         braids = self.bucket_braids[bucket]
         length = braids[0].garside_length()
-        for i in range(1, length - 1):
+        for i in range(length - 1):
             images = evaluate_prefixes_of_same_length(self.rep, [braid.substring(i, length) for braid in braids])
-            for j in range(i+2, length - 1):
+            for j in range(i+2, length + 1 if i > 0 else length):
                 self.add_braids_images([braid.substring(i, j) for braid in braids], images[j-i])
 
     def bootstrap_exhaustive(self, upto_length: int):
-- 
2.43.0

