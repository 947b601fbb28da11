From 93e4fb775e28ba0ac96085a18452bd66d0804c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 01/62] fix: Matrix copies the rows it is given

---
 rosemary/algebra/matrices/matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index 25b6d00..e705821 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -34,7 +34,7 @@ class Matrix(object):
             if isinstance(m, int):
                 entries = [[0]*m for _ in range(m)]
             else:
-                entries = list(m)
+                entries = [list(row) for row in m]
         elif isinstance(n, int):
             entries = [[0]*n for _ in range(m)]
 
@@ -81,7 +81,7 @@ class Matrix(object):
 
     def __setitem__(self, key, value):
         if isinstance(key, int):
-            self.__entries[key] = value
+            self.__entries[key] = list(value)
         elif isinstance(key, (tuple, list)):
             self.__entries[key[0]][key[1]] = value
 
-- 
2.43.0


From 2fcb9c2cecdbb0b8b55be52317c229f3d3dff6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 02/62] fix: Matrix.determinant no longer overwrites the matrix

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index e705821..bb465d6 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -313,7 +313,7 @@ class Matrix(object):
         if nrows != ncols:
             raise ValueError("Determinant only defined for square matrices.")
 
-        m = self.__entries
+        m = [row[:] for row in self.__entries]
 
         for k in range(ncols):
             pivot = m[k][k]
-- 
2.43.0


From 43b1d4cac698daeca61ed20eae6ee89c0fed78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 03/62] fix: Matrix.determinant pivots on the last row, and
 accepts a 1 x 1 zero matrix

---
 rosemary/algebra/matrices/matrices.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index bb465d6..a7ee627 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -322,10 +322,9 @@ class Matrix(object):
                 for i in range(k + 1, ncols):
                     if m[i][k] != 0:
                         break
-
-                # If no nonzero entry was found in column k, then the
-                # determinant is zero.
-                if i == ncols - 1:
+                else:
+                    # If no nonzero entry was found in column k, then the
+                    # determinant is zero.
                     return 0
                 # Othwerwise, we perform exchanges.
                 for j in range(k, ncols):
-- 
2.43.0


From 51d72d5497af963ebf87703385c5bc4a600f7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 04/62] fix: Matrix addition and subtraction reject operands of
 different dimensions

---
 rosemary/algebra/matrices/matrices.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index a7ee627..c1cbba7 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -102,8 +102,8 @@ class Matrix(object):
 
         self_ncols = self.__ncols
         self_nrows = self.__nrows
-        other_ncols = self.__ncols
-        other_nrows = self.__nrows
+        other_ncols = other.__ncols
+        other_nrows = other.__nrows
 
         if self_ncols != other_ncols or self_nrows != other_nrows:
             raise ValueError("Invalid dimensions for matrix addition")
@@ -163,6 +163,10 @@ class Matrix(object):
 
         ncols = self.__ncols
         nrows = self.__nrows
+
+        if ncols != other.__ncols or nrows != other.__nrows:
+            raise ValueError("Invalid dimensions for matrix subtraction")
+
         entries = list(self.__entries)
         other_entries = list(other.__entries)
         result = [[0]*ncols for _ in range(nrows)]
-- 
2.43.0


From e9130e20d0a90a37662fbd8c86b90e0812205760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 05/62] fix: Matrix product of non-square matrices has the
 right dimensions

---
 rosemary/algebra/matrices/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/algebra/matrices/matrices.py b/rosemary/algebra/matrices/matrices.py
index c1cbba7..f7c380f 100644
--- a/rosemary/algebra/matrices/matrices.py
+++ b/rosemary/algebra/matrices/matrices.py
@@ -211,7 +211,7 @@ class Matrix(object):
             raise ValueError("Incompatible Matrix dimensions")
 
         other_entries = other.__entries
-        result = [[0]*nrows for _ in range(other_ncols)]
+        result = [[0]*other_ncols for _ in range(nrows)]
 
         for i in range(nrows):
             for j in range(other_ncols):
-- 
2.43.0


From a81cea42ff11f78915dcae3162470d56c76dfbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 06/62] fix: LeftistHeap accepts no values and a single value

---
 rosemary/data_structures/heaps.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/data_structures/heaps.py b/rosemary/data_structures/heaps.py
index 891f1a0..31091fa 100644
--- a/rosemary/data_structures/heaps.py
+++ b/rosemary/data_structures/heaps.py
@@ -109,7 +109,6 @@ class LeftistHeap(object):
             heap, which we return.
         """
         num_values = len(values)
-        size = 0
         nodes = deque([_LeftistHeapNode(val) for val in values])
 
         while num_values > 1:
@@ -118,10 +117,9 @@ class LeftistHeap(object):
             nodeA = _leftist_heap_merge(nodeA, nodeB)
             nodes.append(nodeA)
             num_values -= 1
-            size += 1
 
-        self.root = nodeA
-        self.size = size + 1
+        self.root = nodes[0] if nodes else None
+        self.size = len(values)
 
     def __repr__(self):
         return "Leftist heap of size {}.".format(self.size)
-- 
2.43.0


From ac31a79d7e01f29b11caab19b6f9259799f0bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 07/62] fix: pell_small and farey no longer print their
 intermediate values

---
 rosemary/number_theory/diophantine_equations/pell.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index a30eb0a..9098417 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -172,7 +172,6 @@ def pell_small(D, N):
 
     # Otherwise, solutions always exist for D not a perfect square.
     for (x, y) in contfrac.convergents():
-        print (x, y)
         if x*x - D*y*y == N:
             yield (x, y)
 
@@ -315,7 +314,6 @@ def farey(D, N):
     while True:
         a = n1 + n2
         b = d1 + d2
-        print (a, b)
 
         t = a*a - D*b*b
 
-- 
2.43.0


From dcba940f867f6bea891f763585386bf6bc2ecbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:51 +0000
Subject: [PATCH 08/62] fix: is_graphic no longer prints its working list

---
 rosemary/graphs/algorithms/degree_sequences.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/degree_sequences.py b/rosemary/graphs/algorithms/degree_sequences.py
index 575b73d..6826565 100644
--- a/rosemary/graphs/algorithms/degree_sequences.py
+++ b/rosemary/graphs/algorithms/degree_sequences.py
@@ -67,7 +67,6 @@ def is_graphic(S):
             return True
 
         T = sorted(T, reverse=True)
-        print(T)
         d = T.pop(0)
 
         # Subtract 1 from the next d largest elements.
-- 
2.43.0


From 11ca465a70265089b64318d93129013c75cbe3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 09/62] fix: the travelling salesman heuristics no longer print
 their progress

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 3 ---
 rosemary/combinatorics/optimization/tsp.py         | 1 -
 2 files changed, 4 deletions(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c031643..f1b5b16 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -104,11 +104,9 @@ class TravelingSalesman(object):
         return (self.cost(path), path)
 
     def select(self, popsize):
-        print("Creating initial population")
         population = []
 
         for i in range(popsize):
-            print("{}/{}".format(i + 1, popsize))
             path = list(range(self.n))
             random.shuffle(path)
             cost, opt = self.two_opt(path)
@@ -168,7 +166,6 @@ class TravelingSalesman(object):
             if current_cost < best_cost:
                 Xbest = list(population[1])
                 best_cost = current_cost
-                print(c, best_cost)
 
         return (best_cost, Xbest)
 
diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index db73df8..f394963 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -327,7 +327,6 @@ def simulated_annealing_two_opt(points, distance_matrix=None):
             if count == 1000:
                 break
         else:
-            print(best_value)
             old_value = best_value
             count = 0
 
-- 
2.43.0


From f4a6ba156260bba2075d32ba6403dc0507cf1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 10/62] fix: TravelingSalesman.two_opt returns a tour of its
 own, not the caller's list

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index f1b5b16..c094bc2 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -101,7 +101,7 @@ class TravelingSalesman(object):
 
             i += 1
 
-        return (self.cost(path), path)
+        return (self.cost(path), list(path))
 
     def select(self, popsize):
         population = []
-- 
2.43.0


From 1e53293eb8dce363a122a5a9b48bd584411e4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 11/62] fix: PellEquation.resolvent_solution uses the
 coefficients of the equation

---
 rosemary/number_theory/diophantine_equations/pell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 9098417..18962df 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -74,6 +74,7 @@ class PellEquation(object):
         ...
         ValueError: pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).
         """
+        D, n = self.D, self.N
         if D <= 0 or is_square(D) or n not in (1, -1):
             raise ValueError("pell_fundamental_solution: Must have D > 0 not a perfect square and n in (-1, 1).")
 
-- 
2.43.0


From ceabb0d2a38a86a7ebd89a2ed220ff237f23f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 12/62] fix: necklaces with weights takes the gcd of the list
 of weights

---
 rosemary/combinatorics/enumeration/enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 489a572..b5836e0 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -3,7 +3,7 @@
 # in to an enumeration algorithm, but we prefer algorithms more advanced than
 # simply listing and counting whenever possible.
 
-from rosemary.number_theory.core import gcd
+from rosemary.number_theory.core import gcd_list
 from rosemary.number_theory.factorization.factorization import xdivisors
 from rosemary.number_theory.arithmetic_functions.functions import euler_phi, factorial
 
@@ -392,7 +392,7 @@ def necklaces(n, k, weights=None):
         16
     """
     if weights:
-        j = gcd(weights)
+        j = gcd_list(weights)
         ss = 0
         for d in xdivisors(j):
             ll = [e//d for e in weights]
-- 
2.43.0


From 8242f0c3ec9d5b5971b89d4314a787bacdcb522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 13/62] fix: largest_divisor finds the factoring routine

---
 rosemary/number_theory/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 8342082..436c66f 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -1,6 +1,6 @@
 # Miscellaneous number theoretic functions
 
-import rosemary.number_theory.factorization
+from rosemary.number_theory.factorization.factorization import factor
 
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from fractions import Fraction
@@ -31,7 +31,7 @@ def largest_divisor(n, b):
     if n % target == 0:
         return target
 
-    n_factorization = rosemary.number_theory.factorization.factor(n)
+    n_factorization = factor(n)
     L = []
     for (p, e) in n_factorization:
         pp = p
-- 
2.43.0


From bf5a32e07bd2fbda5f004ecc342c11d25ff38899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 14/62] fix: crt_preconditioning_data keeps its own copy of the
 moduli

---
 rosemary/number_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index d04b7b4..ff01d31 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -641,7 +641,7 @@ def crt_preconditioning_data(moduli):
         inverse_list[i] = inverse_mod(partial_products[i], moduli[i])
 
     product = partial_products[r - 1]*moduli[r - 1]
-    data = (r, moduli, partial_products, inverse_list, product)
+    data = (r, list(moduli), partial_products, inverse_list, product)
     return data
 
 
-- 
2.43.0


From fb844ef235220972671340b5ac80d663e13f81a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 15/62] fix: BITSieveArray.entries returns a copy of the
 entries

---
 rosemary/data_structures/bit_sieve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/data_structures/bit_sieve.py b/rosemary/data_structures/bit_sieve.py
index fefad9c..51eb411 100644
--- a/rosemary/data_structures/bit_sieve.py
+++ b/rosemary/data_structures/bit_sieve.py
@@ -89,7 +89,7 @@ class BITSieveArray(object):
         self.n = n
 
     def entries(self):
-        return self.A[0]
+        return list(self.A[0])
 
     def mark_multiples(self, p):
         A = self.A
-- 
2.43.0


From a2323c8d1a978e9c36bee730d292bf0a4cacc53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 16/62] fix: every Polynomial has the content and primitive
 part its gcd uses

---
 rosemary/algebra/polynomials/polynomials.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index 9bb53f2..bcbd8e4 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -405,8 +405,6 @@ class Polynomial(object):
             else:
                 h = h**(1 - dd) // g**(-dd)
 
-
-class PolyZZ(Polynomial):
     def content(self):
         """
         Returns the content of self.
@@ -436,5 +434,9 @@ class PolyZZ(Polynomial):
         return result
 
 
+class PolyZZ(Polynomial):
+    pass
+
+
 class PolyQQ(Polynomial):
     pass
-- 
2.43.0


From 4c9ae3c0edc267548057fb4d157caea8bde6578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 17/62] fix: divisor_pairs and unitary_divisors accept a
 factorization without the number

---
 rosemary/number_theory/factorization/factorization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 81ef216..98b32c3 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -237,6 +237,9 @@ def divisor_pairs(n=None, factorization=None):
         if factorization[0][0] == -1:
             factorization = factorization[1:]
 
+    if n is None:
+        n = factor_back(factorization)
+
     div_list = divisors(n, factorization=factorization)
 
     pairs = []
@@ -335,6 +338,9 @@ def unitary_divisors(n=None, factorization=None):
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
+    if n is None:
+        n = factor_back(factorization)
+
     div_list = [1, n]
 
     for i in range(1, len(pk_divisors)):
-- 
2.43.0


From 226ef96d5a510cbddf1c13414e0e49929857f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 18/62] fix: minimum_cost_paths_heuristic accepts an empty set
 of terminals

---
 rosemary/graphs/algorithms/steiner_trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rosemary/graphs/algorithms/steiner_trees.py b/rosemary/graphs/algorithms/steiner_trees.py
index 2f17a78..7055be8 100644
--- a/rosemary/graphs/algorithms/steiner_trees.py
+++ b/rosemary/graphs/algorithms/steiner_trees.py
@@ -187,6 +187,7 @@ def minimum_cost_paths_heuristic(graph, terminals):
         shortest_prev[u] = u_prev
 
     best_weight = inf
+    best_edges = []
 
     for root in terminals:
         tree_edges = []
-- 
2.43.0


From 4c23d92e5d0a97ffdd80e46dcc15df70e4074f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:45 +0000
Subject: [PATCH 19/62] fix: clique functions reject an unknown algorithm name
 instead of returning None

---
 rosemary/graphs/algorithms/cliques.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rosemary/graphs/algorithms/cliques.py b/rosemary/graphs/algorithms/cliques.py
index 223421f..f5298d3 100644
--- a/rosemary/graphs/algorithms/cliques.py
+++ b/rosemary/graphs/algorithms/cliques.py
@@ -232,6 +232,8 @@ def maximal_cliques(graph, algorithm='tomita'):
         return bron_kerbosch(graph)
     elif algorithm == 'bron_kerbosch_binary':
         return bron_kerbosch_binary(graph)
+    else:
+        raise ValueError("maximal_cliques: Unknown algorithm {}.".format(algorithm))
 
 
 ################################################################################
@@ -616,6 +618,8 @@ def maximum_clique(graph, algorithm='ostergard'):
         return ostergard(graph)
     elif algorithm == 'pardalos':
         return pardalos(graph)
+    else:
+        raise ValueError("maximum_clique: Unknown algorithm {}.".format(algorithm))
 
 
 ################################################################################
-- 
2.43.0


From bf3815a1bb9abbf12510e9b96ca6e58ca9eea87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 20/62] fix: korman colors graphs with isolated vertices

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 91b7c4b..40e4ddb 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -565,7 +565,7 @@ def korman(graph, classes=True):
 
         while idx >= clique_size:
             if find_next_s:
-                max_adj = 0
+                max_adj = -1
                 max_deg = 0
                 for u in uncolored:
                     adjacent_colors = {color[v] for v in graph_dict[u]}
-- 
2.43.0


From 4bd3cfef9995eee4372827885f28a783b10fc5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 21/62] fix: integer_sqrt was one too large for many n between
 2**52 and 2**60

---
 rosemary/number_theory/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index ff01d31..01da849 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -524,8 +524,9 @@ def integer_sqrt(n):
     if n in (0, 1):
         return n
 
-    # if n is small enough, compute the square root and round
-    if n <= 2**60:
+    # if n is small enough for its square root to be exact as a float, compute
+    # the square root and round
+    if n <= 2**50:
         return int(n**(0.5))
 
     bits = n.bit_length()
-- 
2.43.0


From 4b577491986c863edfeb57abfea4850db8c29d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 22/62] fix: summatory functions and their tables take exact
 square roots

---
 .../number_theory/arithmetic_functions/sieves.py |  6 +++---
 .../number_theory/arithmetic_functions/sums.py   | 16 +++++++++-------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/sieves.py b/rosemary/number_theory/arithmetic_functions/sieves.py
index 6527892..07975ca 100644
--- a/rosemary/number_theory/arithmetic_functions/sieves.py
+++ b/rosemary/number_theory/arithmetic_functions/sieves.py
@@ -88,7 +88,7 @@ def moebius_list(n):
     if n <= 0:
         raise ValueError("moebius_list: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     prime_list = prime_sieves.primes(sqrt)
 
     values = [1]*(n + 1)
@@ -161,7 +161,7 @@ def sigma_list(n, k=1):
     # Use a special algorithm when k == 1 for small values of n.
     if k == 1 and n <= 10**4:
         block = [0]*(n + 1)
-        sqrt = int(n**(0.5))
+        sqrt = integer_sqrt(n)
 
         for j in range(1, sqrt + 1):
             block[j*j] += j
@@ -221,7 +221,7 @@ def tau_list(n):
         raise ValueError("tau_list: Must have n > 0.")
 
     block = [0]*(n + 1)
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
 
     for j in range(1, sqrt + 1):
         block[j*j] += 1
diff --git a/rosemary/number_theory/arithmetic_functions/sums.py b/rosemary/number_theory/arithmetic_functions/sums.py
index d49e699..4caf421 100644
--- a/rosemary/number_theory/arithmetic_functions/sums.py
+++ b/rosemary/number_theory/arithmetic_functions/sums.py
@@ -4,6 +4,8 @@
 
 import rosemary.number_theory.arithmetic_functions.sieves as sieves
 
+from rosemary.number_theory.core import integer_sqrt
+
 
 def euler_phi_sum(n):
     r"""Returns the value of the sum of euler_phi(k) for k = 1, 2, ..., n.
@@ -48,7 +50,7 @@ def euler_phi_sum(n):
     if n <= 0:
         raise ValueError("euler_phi_sum: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     phi_list = sieves.euler_phi_list(sqrt)
 
     # for i <= sqrt(n), compute the sum directly
@@ -60,7 +62,7 @@ def euler_phi_sum(n):
         if n in cache:
             return cache[n]
 
-        sqrt_n = int(n**(0.5))
+        sqrt_n = integer_sqrt(n)
         value = n - sqrt_n*cache[sqrt_n]
 
         for d in range(2, sqrt_n + 1):
@@ -106,7 +108,7 @@ def euler_phi_weighted_sum(n):
     if n <= 0:
         raise ValueError("euler_phi_weighted_sum: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     totients = sieves.euler_phi_list(sqrt)
 
     # for i <= sqrt(n), compute the sum directly
@@ -118,7 +120,7 @@ def euler_phi_weighted_sum(n):
         if n in cache:
             return cache[n]
 
-        sqrt_n = int(n**(0.5)) + 1
+        sqrt_n = integer_sqrt(n) + 1
         s1 = sum(d*totients[d]*(n//d - d + 1)*(n//d + d)//2 for d in range(1, sqrt_n))
         s2 = sum(d*(T(n//d) - T(d - 1)) for d in range(2, sqrt_n))
         s3 = sum(d*d*totients[d] for d in range(1, sqrt_n))
@@ -167,7 +169,7 @@ def moebius_sum(n):
     if n <= 0:
         raise ValueError("moebius_sum: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     mu_list = sieves.moebius_list(sqrt)
 
     # for i <= sqrt(n), compute the sum directly
@@ -178,7 +180,7 @@ def moebius_sum(n):
     def M(n):
         if n in cache:
             return cache[n]
-        sqrt_n = int(n**(0.5)) + 1
+        sqrt_n = integer_sqrt(n) + 1
         value = n - 1
         for d in range(2, sqrt_n):
             value += M(n//d) - M(d - 1)
@@ -222,7 +224,7 @@ def sigma_sum(n):
     if n <= 0:
         raise ValueError("sigma_sum: Must have n > 0.")
 
-    sqrt = int(n**(0.5))
+    sqrt = integer_sqrt(n)
     value = -sqrt*(sqrt + 1)
 
     for k in range(1, sqrt + 1):
-- 
2.43.0


From 1cd8c37a7046f2a27ffd17c340a0fa2effbe96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 23/62] fix: meissel and lehmer compare with exact roots

---
 rosemary/number_theory/primes/prime_counting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ac1c280..ccfc8be 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -79,8 +79,8 @@ def meissel(n):
         if (x, a) in cache:
             return cache[x, a]
 
-        b = pi_cache[int((x + 0.5)**(0.5))]
-        c = pi_cache[int((x + 0.5)**(1.0/3.0))]
+        b = pi_cache[integer_sqrt(x)]
+        c = pi_cache[integer_nth_root(3, x)]
 
         if a <= 7:
             if a == 1:
@@ -203,7 +203,7 @@ def lehmer(n):
                          x//24310 - x//34034 - x//15015 - x//19635 - x//23205 - x//36465 - x//51051 - x//85085 +
                          x//30030 + x//39270 + x//46410 + x//72930 + x//102102 + x//170170 + x//255255 - x//510510)
 
-        elif a >= bisect(primes, x**(0.5)) and x < primes[-1]:
+        elif a >= bisect(primes, integer_sqrt(x)) and x < primes[-1]:
             pi = bisect(primes, x)
             value = pi - a + 1
 
-- 
2.43.0


From d9eed18bfd635dcee8b0f759c8c3445918347d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 24/62] fix: lmo_bit miscounted at cubes of primes and failed
 for small x

---
 rosemary/number_theory/primes/prime_counting.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index ccfc8be..53fe02a 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -300,13 +300,18 @@ def lmo(x):
 
 
 def lmo_bit(x):
-    root = int(x**(2.0/3.0))
+    if x <= 1:
+        return 0
+    elif x <= _PRIME_LIST[-1]:
+        return bisect(_PRIME_LIST, x)
+
+    root = integer_nth_root(3, x**2)
 
     primes = sieves.primes(root)
-    t = x**(0.33333333333333)
+    t = integer_nth_root(3, x)
 
     c = bisect(primes, t)
-    b = bisect(primes, x**(0.5))
+    b = bisect(primes, integer_sqrt(x))
 
     value = (b + c - 2)*(b - c + 1)//2
 
-- 
2.43.0


From baca2268f2a34028899e0c25175a3fbdf23ef903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 25/62] fix: segment sizes of prime_range and factored_range
 are exact square roots

---
 rosemary/number_theory/factorization/factorization.py | 3 ++-
 rosemary/number_theory/primes/sieves.py               | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 98b32c3..ffff953 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -6,6 +6,7 @@ import itertools
 import rosemary.number_theory.factorization.algorithms as algorithms
 import rosemary.number_theory.classification
 
+from rosemary.number_theory.core import integer_sqrt
 from rosemary.number_theory.prime_list import _PRIME_LIST
 from rosemary.number_theory.primes.primality import is_probable_prime
 from rosemary.number_theory.primes.sieves import primes
@@ -398,7 +399,7 @@ def factored_range(a, b=None):
     if b <= a:
         return
 
-    block_size = int(b**(0.5))
+    block_size = integer_sqrt(b)
     prime_list = primes(block_size)
 
     if a == 1:
diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index 9bf9a5d..f005e0b 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -524,7 +524,7 @@ def prime_range(a, b=None):
             yield prime_list[i]
     else:
         # Otherwise use a segmented sieve on the interval.
-        sqrt = int(b**(0.5))
+        sqrt = integer_sqrt(b)
         prime_list = primes(sqrt)
 
         # Our segmented sieve code assumes that a > sqrt(b). If this is not the
-- 
2.43.0


From 0fe3bdd462007d0a72b000fb6c55d412092acfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 26/62] fix: partition numbers and Pell search bounds use exact
 square roots

---
 rosemary/combinatorics/enumeration/enumeration.py    | 4 ++--
 rosemary/number_theory/diophantine_equations/pell.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index b5836e0..35c4c70 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -3,7 +3,7 @@
 # in to an enumeration algorithm, but we prefer algorithms more advanced than
 # simply listing and counting whenever possible.
 
-from rosemary.number_theory.core import gcd_list
+from rosemary.number_theory.core import gcd_list, integer_sqrt
 from rosemary.number_theory.factorization.factorization import xdivisors
 from rosemary.number_theory.arithmetic_functions.functions import euler_phi, factorial
 
@@ -169,7 +169,7 @@ def partition_list(n):
     values[1] = 1
 
     for m in range(2, n + 1):
-        max_idx = int((1 + (1 + 24*m)**(0.5))/6)
+        max_idx = (1 + integer_sqrt(1 + 24*m))//6
         sign = (-1)**(max_idx + 1)
         total = 0
 
diff --git a/rosemary/number_theory/diophantine_equations/pell.py b/rosemary/number_theory/diophantine_equations/pell.py
index 18962df..0247c0c 100644
--- a/rosemary/number_theory/diophantine_equations/pell.py
+++ b/rosemary/number_theory/diophantine_equations/pell.py
@@ -1,5 +1,6 @@
 from rosemary.number_theory.classification import is_square
 from rosemary.number_theory.continued_fractions import QuadraticIrrational
+from rosemary.number_theory.core import integer_sqrt
 from rosemary.number_theory.zn_arithmetic import sqrts_mod_n
 
 
@@ -250,10 +251,10 @@ def pell_minimal_positive_solutions(D, N):
 
     if N > 0:
         # See Theorem 7.1 in [2]
-        B = int(((u + 1)*N / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u + 1)*N // 2) + 1
     else:
         # See Theorem 7.2 in [2]
-        B = int(((u - 1)*(-N) / 2.0)**(0.5)) + 1
+        B = integer_sqrt((u - 1)*(-N) // 2) + 1
 
     # We can proceed in two different ways at this point:
     # 1) We can check all values of y in the range described in Theorems
-- 
2.43.0


From be82940b1d3f088721681f59800fc1866cda36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 27/62] fix: prime_range excludes its upper bound and includes
 a prime lower bound

---
 rosemary/number_theory/primes/sieves.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/primes/sieves.py b/rosemary/number_theory/primes/sieves.py
index f005e0b..557eecc 100644
--- a/rosemary/number_theory/primes/sieves.py
+++ b/rosemary/number_theory/primes/sieves.py
@@ -519,8 +519,7 @@ def prime_range(a, b=None):
     # primes up to this limit yield the ones in the interval.
     if b <= cutoff:
         prime_list = primes(b)
-        idx = bisect_left(prime_list, a)
-        for i in range(idx, len(prime_list)):
+        for i in range(bisect_left(prime_list, a), bisect_left(prime_list, b)):
             yield prime_list[i]
     else:
         # Otherwise use a segmented sieve on the interval.
@@ -531,7 +530,7 @@ def prime_range(a, b=None):
         # case, then we yield the primes <= sqrt(b) first.
         if a <= sqrt:
             # If a*a <= b, iterate over the primes a <= p <= sqrt(b) first.
-            idx = bisect(prime_list, a)
+            idx = bisect_left(prime_list, a)
             for i in range(idx, len(prime_list)):
                 yield prime_list[i]
 
-- 
2.43.0


From defc00f34e5f1ff064b39d1f200996bcd956750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 28/62] fix: binomial(n, k) is zero for k > n

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index 35c4c70..f3bcf98 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -84,6 +84,9 @@ def binomial(n, k):
         >>> binomial(2, 0)
         1
     """
+    if k > n:
+        return 0
+
     pp = 1
     k = min(k, n - k)
     for e in range(n - k + 1, n + 1):
-- 
2.43.0


From b0a63c7bbdc2aa55f72207336469ddc039047933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 29/62] fix: partition_list(0) is [1]

---
 rosemary/combinatorics/enumeration/enumeration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index f3bcf98..fe55bc2 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -169,7 +169,8 @@ def partition_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = 1
+    if n > 0:
+        values[1] = 1
 
     for m in range(2, n + 1):
         max_idx = (1 + integer_sqrt(1 + 24*m))//6
-- 
2.43.0


From 5cc0e552b0741b84a25877c476b676265848e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 30/62] fix: bernoulli_list(0) is [1]

---
 rosemary/number_theory/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rosemary/number_theory/misc.py b/rosemary/number_theory/misc.py
index 436c66f..9fcd1c7 100644
--- a/rosemary/number_theory/misc.py
+++ b/rosemary/number_theory/misc.py
@@ -160,7 +160,8 @@ def bernoulli_list(n):
     """
     values = [0]*(n + 1)
     values[0] = 1
-    values[1] = Fraction(-1, 2)
+    if n > 0:
+        values[1] = Fraction(-1, 2)
 
     for m in range(2, n + 1, 2):
         total = 1
-- 
2.43.0


From 20b5134545d719e049d48d82bbacee9d3f27c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 31/62] fix: is_probable_prime rejects integers below 2

---
 rosemary/number_theory/primes/primality.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cf3a668..6149ff4 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -179,6 +179,9 @@ def is_probable_prime(n):
         algorithm 3.5.2 of "Prime Numbers: A Computational Perspective" by
         Crandall and Pomerance for details.
     """
+    if n < 2:
+        return False
+
     # return all(solovay_strassen(n, a) for a in range(2, min(n - 1, 20)))
     return all(miller_rabin(n, a) for a in range(2, min(n - 1, 20)))
 
-- 
2.43.0


From 59c17113bbc0ac8265179a105f20a4f3ecbf4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 32/62] fix: next_prime and next_probable_prime of integers
 below 1 are 2

---
 rosemary/number_theory/primes/primality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index 6149ff4..cae44b1 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -237,7 +237,7 @@ def next_prime(n):
     >>> next_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
@@ -260,7 +260,7 @@ def next_probable_prime(n):
     >>> next_probable_prime(10**10)
     10000000019
     """
-    if n == 1:
+    if n <= 1:
         return 2
 
     n += 1
-- 
2.43.0


From f187ddd3826991a59b4be3debfee0e2bbda5e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 33/62] fix: pi_table handles bounds below 2

---
 rosemary/number_theory/primes/prime_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/primes/prime_counting.py b/rosemary/number_theory/primes/prime_counting.py
index 53fe02a..6b0ef9b 100644
--- a/rosemary/number_theory/primes/prime_counting.py
+++ b/rosemary/number_theory/primes/prime_counting.py
@@ -455,7 +455,7 @@ def pi_table(n):
         table[last:p] = [i]*(p - last)
         last = p
 
-    table[last:n + 1] = [i + 1]*(n + 1 - last)
+    table[last:n + 1] = [len(primes)]*(n + 1 - last)
 
     return primes, table
 
-- 
2.43.0


From 5b5ed787684a606dfa6339140bc30fb2aede45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 34/62] fix: unitary_divisors lists the divisor 1 of 1 once

---
 rosemary/number_theory/factorization/factorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index ffff953..7ab6697 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -342,9 +342,9 @@ def unitary_divisors(n=None, factorization=None):
     if n is None:
         n = factor_back(factorization)
 
-    div_list = [1, n]
+    div_list = []
 
-    for i in range(1, len(pk_divisors)):
+    for i in range(len(pk_divisors) + 1):
         for subset in itertools.combinations(pk_divisors, i):
             prod = 1
             for pk in subset:
-- 
2.43.0


From 2628111ad13a0a2202a73f0e5062f2e9f399cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 35/62] fix: divisor functions accept the empty factorization
 of 1

---
 rosemary/number_theory/factorization/factorization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index 7ab6697..bfc8d80 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -188,7 +188,7 @@ def divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -235,7 +235,7 @@ def divisor_pairs(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     if n is None:
@@ -283,7 +283,7 @@ def prime_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     return [p for (p, e) in factorization]
@@ -316,7 +316,7 @@ def xdivisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     p_divisors = [p for (p, e) in factorization]
@@ -335,7 +335,7 @@ def unitary_divisors(n=None, factorization=None):
     elif factorization is None:
         factorization = factor(abs(n))
     else:
-        if factorization[0][0] == -1:
+        if factorization and factorization[0][0] == -1:
             factorization = factorization[1:]
 
     pk_divisors = [p**k for (p, k) in factorization]
-- 
2.43.0


From 6e4b6c94c215985ab1ac90a77e48a5693dbd7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 36/62] fix: greedy_sequential colors the graph with no
 vertices

---
 rosemary/graphs/algorithms/coloring.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 40e4ddb..7fe7147 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -162,12 +162,9 @@ def greedy_sequential(graph, vertices=None, passes=1, classes=True):
         vertices = graph.vertices(order='degree')[::-1]
 
     color_map = {}
-    v = vertices[0]
-    color_map[v] = 0
-    num_colors = 1
+    num_colors = 0
 
-    for i in range(1, len(vertices)):
-        v = vertices[i]
+    for v in vertices:
         adjacent_colors = set([])
         for u in graph[v]:
             if u in color_map:
-- 
2.43.0


From e19401a136f50fde9698d2bfff7d62dc6a92d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 37/62] fix: factored_range yields the empty factorization for
 1

---
 rosemary/number_theory/factorization/factorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/factorization.py b/rosemary/number_theory/factorization/factorization.py
index bfc8d80..738d5c1 100644
--- a/rosemary/number_theory/factorization/factorization.py
+++ b/rosemary/number_theory/factorization/factorization.py
@@ -403,7 +403,7 @@ def factored_range(a, b=None):
     prime_list = primes(block_size)
 
     if a == 1:
-        yield (1, [(1, 1)])
+        yield (1, [])
         a += 1
 
     for start in range(a, b, block_size):
-- 
2.43.0


From 091bf886732b2160421a3165d53ebce732446632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 38/62] fix: inverse_phi no longer adds to the dictionary it
 iterates over, and finds 1

---
 .../number_theory/arithmetic_functions/inverse_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index f914190..946f945 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -103,16 +103,14 @@ def euler_phi_inverse(n):
 def inverse_phi(n):
     prime_list = [a + 1 for a in factor.divisors(n) if primality.is_prime(a + 1)]
     phi_cache = defaultdict(list)
+    phi_cache[1] = [1]
 
     for p in prime_list[::-1]:
         a = p - 1
         pk = p
 
         while a <= n:
-            if n % a == 0:
-                phi_cache[a] += [pk]
-
-            for b in phi_cache.keys():
+            for b in list(phi_cache):
                 if a*b > n:
                     continue
                 for x in phi_cache[b]:
-- 
2.43.0


From 77f145a00d9e0461156eb6ae48eb525c9bcbe4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 39/62] fix: branch_and_bound coloring returns the coloring
 with a color per vertex when there is no better one

---
 rosemary/graphs/algorithms/coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index 7fe7147..d5c7f05 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -450,7 +450,7 @@ def branch_and_bound(graph, classes=True):
             return best_number
 
     vertices = graph.vertices()
-    best = [len(vertices), []]
+    best = [len(vertices), {v: i + 1 for (i, v) in enumerate(vertices)}]
 
     # color_map and uncolored are global data structure used by the
     # recursive method.
-- 
2.43.0


From 4553fa442e53376bbdee86b392f5814b1dbb0b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 40/62] fix: kruskal stops when the edges of a disconnected
 graph run out

---
 rosemary/graphs/algorithms/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index aad03bd..d03d878 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -181,7 +181,7 @@ def kruskal(graph):
     union = X.union
 
     # A tree on n vertices has n - 1 edges, so break when finished.
-    while num_edges < num_vertices - 1:
+    while edges and num_edges < num_vertices - 1:
         (weight, u, v) = heappop(edges)
         if find(u) != find(v):
             edge = min(u, v), max(u, v)
-- 
2.43.0


From 4801abb117bceb01f0c9802c0b47ca14036a4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 41/62] fix: phillips handles repeated elements and the empty
 list

---
 rosemary/combinatorics/generation/permutations.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rosemary/combinatorics/generation/permutations.py b/rosemary/combinatorics/generation/permutations.py
index 1c71f7f..46cc25a 100644
--- a/rosemary/combinatorics/generation/permutations.py
+++ b/rosemary/combinatorics/generation/permutations.py
@@ -69,13 +69,14 @@ def phillips(elements):
 
     # The Phillips algorithm assumes that there at least three elements in
     # the list. We handle the other cases separately.
-    if n == 0:
+    if n <= 0:
         yield entries[:]
         return
 
     if n == 1:
         yield [entries[0], entries[1]]
-        yield [entries[1], entries[0]]
+        if entries[0] != entries[1]:
+            yield [entries[1], entries[0]]
         return
 
     while True:
@@ -106,15 +107,15 @@ def phillips(elements):
         else:
             # L2.2' [Find j]
             j = n - 3
-            y = entries[j]
-            while y >= x:
+            while j >= 0 and entries[j] >= x:
+                x = entries[j]
                 j -= 1
-                x = y
-                y = entries[j]
 
             if j < 0:
                 return
 
+            y = entries[j]
+
             while True:
                 # L3' [Easy increase?]
                 if y < z:
-- 
2.43.0


From ea3f53b75324cfacd0709783aeb4bcf4ea073396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 42/62] fix: integer_partitions yields the empty partition of
 0, and partitions into one part

---
 rosemary/combinatorics/generation/partitions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rosemary/combinatorics/generation/partitions.py b/rosemary/combinatorics/generation/partitions.py
index 04955e8..01c82d5 100644
--- a/rosemary/combinatorics/generation/partitions.py
+++ b/rosemary/combinatorics/generation/partitions.py
@@ -79,6 +79,10 @@ def integer_partitions(n, **kwargs):
         Generates all partitions of n. This is Algorithm P from 7.2.1.4 of
         Knuth, Vol. 4.
         """
+        if n == 0:
+            yield []
+            return
+
         partition = [0]*n
         last_replaced = 0
         partition[last_replaced] = n
@@ -115,6 +119,8 @@ def integer_partitions(n, **kwargs):
 
         while True:
             yield partition[:]
+            if m == 1:
+                return
             if partition[1] < partition[0] - 1:
                 partition[0] -= 1
                 partition[1] += 1
-- 
2.43.0


From 5ed1678cb3ddd48b7feee5312ba565b307dc692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 43/62] fix: cheriton_tarjan builds a forest when the graph is
 not connected

---
 rosemary/graphs/algorithms/spanning_trees.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index d03d878..f930bc7 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -231,7 +231,6 @@ def cheriton_tarjan(graph):
         see the book "Algorithms from P to NP" by Moret and Shapiro.
     """
     vertices = graph.vertices()
-    num_vertices = len(vertices)
 
     X = UnionFind(vertices)
     find = X.find
@@ -239,7 +238,6 @@ def cheriton_tarjan(graph):
     PQ = {}
 
     tree_edges = []
-    num_edges = 0
 
     for u in vertices:
         triples = []
@@ -248,11 +246,12 @@ def cheriton_tarjan(graph):
             triples.append((weight, u, v))
         PQ[u] = LeftistHeap(triples)
 
-    while num_edges < num_vertices - 1:
+    while PQ:
         u = choice(list(PQ.keys()))
         Tu = find(u)
+        Tv = None
 
-        while True:
+        while PQ[Tu]:
             (_, x, y) = PQ[Tu].delete_min()
             Tx = find(x)
             Ty = find(y)
@@ -266,6 +265,11 @@ def cheriton_tarjan(graph):
                 Tv = Tx
             break
 
+        if Tv is None:
+            # No edge leaves this tree, so it spans its component.
+            del PQ[Tu]
+            continue
+
         union(Tu, Tv)
         u = find(Tu)
 
@@ -277,8 +281,6 @@ def cheriton_tarjan(graph):
         del PQ[Tv]
         tree_edges.append((min(x, y), max(x, y)))
 
-        num_edges += 1
-
     total = 0
     for (u, v) in tree_edges:
         total += graph[u][v]
-- 
2.43.0


From 2237be6a8beca12b1beab125254055c9eeeecc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 44/62] fix: dsatur and branch_and_bound colorings of the graph
 with no vertices

---
 rosemary/graphs/algorithms/coloring.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rosemary/graphs/algorithms/coloring.py b/rosemary/graphs/algorithms/coloring.py
index d5c7f05..d768a23 100644
--- a/rosemary/graphs/algorithms/coloring.py
+++ b/rosemary/graphs/algorithms/coloring.py
@@ -53,10 +53,12 @@ def dsatur(graph, classes=True):
     color_map = {}
 
     # Pick a vertex of maximal degree and color it with color 0.
-    u = graph.maximum_degree_vertex()
-    color_map[u] = 0
-    num_colors = 1
-    uncolored.remove(u)
+    num_colors = 0
+    if uncolored:
+        u = graph.maximum_degree_vertex()
+        color_map[u] = 0
+        num_colors = 1
+        uncolored.remove(u)
 
     while uncolored:
         # Choose a vertex of maximal saturation degree, breaking any ties
@@ -465,7 +467,8 @@ def branch_and_bound(graph, classes=True):
         neighbors[u] = graph.neighbors(u)
 
     # Main entry to the recursive function.
-    color(len(vertices), 0)
+    if vertices:
+        color(len(vertices), 0)
     num_colors, color_map = best
 
     if not classes:
-- 
2.43.0


From 5649a55b143949a8b2c9e86d3089b25d72feb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 45/62] fix: prim returns the empty tree of the graph with no
 vertices

---
 rosemary/graphs/algorithms/spanning_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index f930bc7..9c7e41b 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -82,7 +82,7 @@ def prim(graph, root=None, edge_list=True):
     """
     # Choose a root vertex if none is given
     if root is None:
-        root = next(iter(graph.graph_dict))
+        root = next(iter(graph.graph_dict), None)
 
     inf = float('inf')
 
@@ -90,7 +90,7 @@ def prim(graph, root=None, edge_list=True):
     cost = {u: inf for u in graph}
     cost[root] = 0
 
-    heap = [(0, root)]
+    heap = [(0, root)] if graph.graph_dict else []
     visited = set()
     add = visited.add
 
-- 
2.43.0


From ac018cdcfae85bc17c54b7c38476f7f3a3f1bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 46/62] fix: dijkstra_bidirectional returns a pair for equal
 vertices

---
 rosemary/graphs/algorithms/paths.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index b23ec23..8d582fa 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -575,6 +575,9 @@ def dijkstra_bidirectional(graph, s, t):
     if t not in graph_dict:
         raise ValueError("dijkstra_bidirectional: {} is not a vertex of graph.".format(t))
 
+    if s == t:
+        return 0, [s]
+
     # Search forward from `s`.
     forward_search = dijkstra_iterator(graph, s)
     forward_estimate = {}
-- 
2.43.0


From 21371aa511eda819b37efc069465088dc7dd133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 47/62] fix: dijkstra_buckets and dijkstra_pairing_heap give
 the previous node of unreachable vertices

---
 rosemary/graphs/algorithms/paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/graphs/algorithms/paths.py b/rosemary/graphs/algorithms/paths.py
index 8d582fa..264ab15 100644
--- a/rosemary/graphs/algorithms/paths.py
+++ b/rosemary/graphs/algorithms/paths.py
@@ -273,7 +273,7 @@ def dijkstra_buckets(graph, s):
     estimate = {v: inf for v in graph_dict}
     estimate[s] = 0
 
-    previous = {s: None}
+    previous = {v: None for v in graph_dict}
     buckets = defaultdict(list)
     buckets[0] = [s]
 
@@ -380,7 +380,7 @@ def dijkstra_pairing_heap(graph, s):
         raise ValueError("dijkstra_pairing_heap: {} is not a vertex of graph.".format(s))
 
     distance = {v: inf for v in graph_dict}
-    previous = {s: None}
+    previous = {v: None for v in graph_dict}
 
     distance[s] = 0
     heap = PairingHeap()
-- 
2.43.0


From 4519e9f6a4be736b1dcdffe913f18b2a11aec399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 48/62] fix: graph files are closed after reading

---
 rosemary/graphs/graphs.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/rosemary/graphs/graphs.py b/rosemary/graphs/graphs.py
index 7cdcb77..7cf411f 100644
--- a/rosemary/graphs/graphs.py
+++ b/rosemary/graphs/graphs.py
@@ -1128,12 +1128,11 @@ def load_dimacs_graph(path):
         0.5033895582329317
     """
     graph = Graph()
-    f = open(path, 'r')
-
-    for line in f:
-        if line.startswith('e'):
-            (u, v) = [int(e) for e in line.split(' ')[1:]]
-            graph.add_edge(u, v)
+    with open(path, 'r') as f:
+        for line in f:
+            if line.startswith('e'):
+                (u, v) = [int(e) for e in line.split(' ')[1:]]
+                graph.add_edge(u, v)
 
     return graph
 
@@ -1160,11 +1159,10 @@ def load_graph(path):
         0.5008368368368369
     """
     graph = Graph()
-    f = open(path, 'r')
-
-    for line in f:
-        (u, v) = [int(e) for e in line.split(' ')]
-        graph.add_edge(u, v)
+    with open(path, 'r') as f:
+        for line in f:
+            (u, v) = [int(e) for e in line.split(' ')]
+            graph.add_edge(u, v)
 
     return graph
 
-- 
2.43.0


From 560ebac93ba18882f57f6468997cc0e85562d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 49/62] fix: power_mod(a, 0, m) is 1 also when m divides a

---
 rosemary/number_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 01da849..274bd78 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -223,10 +223,10 @@ def power_mod(a, k, m):
     if m < 1:
         raise ValueError("power_mod: Must have m >= 1.")
 
+    if k == 0:
+        return 1 % m
     if a % m == 0:
         return 0
-    if k == 0:
-        return 1
 
     a = a % m
     t = 1
-- 
2.43.0


From 746575c087c30735925aa9b3d21ad58f8d61e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 50/62] fix: arithmetic functions accept the empty
 factorization of 1

---
 rosemary/number_theory/arithmetic_functions/functions.py      | 4 ++--
 .../number_theory/arithmetic_functions/inverse_functions.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rosemary/number_theory/arithmetic_functions/functions.py b/rosemary/number_theory/arithmetic_functions/functions.py
index 573442d..f90938d 100644
--- a/rosemary/number_theory/arithmetic_functions/functions.py
+++ b/rosemary/number_theory/arithmetic_functions/functions.py
@@ -53,7 +53,7 @@ def _validate_input(n):
             message = "{}: Must have n > 0.".format(caller_name)
             raise ValueError(message)
         factorization = rosemary.number_theory.factorization.factorization.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         factorization = n
     else:
         message = "{}: Input must be a positive integer or a factorization.".format(caller_name)
@@ -437,7 +437,7 @@ def carmichael_lambda(n):
         elif n <= 0:
             raise ValueError("carmichael_lambda: Must have n > 0.")
         n_factorization = rosemary.number_theory.factorization.factorization.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         n_factorization = n
     else:
         raise ValueError("carmichael_lambda: Input must be a positive integer or a factorization.")
diff --git a/rosemary/number_theory/arithmetic_functions/inverse_functions.py b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
index 946f945..463457c 100644
--- a/rosemary/number_theory/arithmetic_functions/inverse_functions.py
+++ b/rosemary/number_theory/arithmetic_functions/inverse_functions.py
@@ -51,7 +51,7 @@ def euler_phi_inverse(n):
         elif n <= 0:
             raise ValueError("euler_phi_inverse: Must have n > 0.")
         n_factorization = factor.factor(n)
-    elif isinstance(n, list) and n[0][0] > 0:
+    elif isinstance(n, list) and (not n or n[0][0] > 0):
         n_factorization = n
         n = factor.factor_back(n_factorization)
     else:
-- 
2.43.0


From 95727c6014499709419bede0e6a95874bff3c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 51/62] fix: stirling_number2 uses its recurrence, and is zero
 for more blocks than elements

---
 rosemary/combinatorics/enumeration/enumeration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rosemary/combinatorics/enumeration/enumeration.py b/rosemary/combinatorics/enumeration/enumeration.py
index fe55bc2..c725c87 100644
--- a/rosemary/combinatorics/enumeration/enumeration.py
+++ b/rosemary/combinatorics/enumeration/enumeration.py
@@ -57,11 +57,12 @@ def stirling_number2(m, n):
         S[i, 0] = 0
 
     for i in range(m + 1):
-        S[i, i + 1] = 0
+        for j in range(i + 1, n + 1):
+            S[i, j] = 0
 
     for i in range(1, m + 1):
         for j in range(1, min(i, n) + 1):
-            S[i, j] = j*S[i - 1, j] + S[i - j, j - 1]
+            S[i, j] = j*S[i - 1, j] + S[i - 1, j - 1]
 
     return S[m, n]
 
-- 
2.43.0


From f72c93c53dc3d9286063579fc1740fe0c3c15628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 52/62] fix: random bases of the primality tests exist for n =
 3

---
 rosemary/number_theory/primes/primality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rosemary/number_theory/primes/primality.py b/rosemary/number_theory/primes/primality.py
index cae44b1..713b4bc 100644
--- a/rosemary/number_theory/primes/primality.py
+++ b/rosemary/number_theory/primes/primality.py
@@ -61,7 +61,7 @@ def solovay_strassen(n, a=None):
     True
     """
     if a is None:
-        a = randint(2, n - 2)
+        a = randint(2, n - 1)
 
     jacobi = jacobi_symbol(a, n)
     if jacobi == 0 or jacobi % n != pow(a, (n - 1)//2, n):
@@ -91,7 +91,7 @@ def miller_rabin(n, a=None):
     --------
     """
     if a is None:
-        a = randint(2, n - 2)
+        a = randint(2, n - 1)
 
     t = n - 1
     s = 0
-- 
2.43.0


From d16b9a497dc3059f6d31fae55b928fffb19e1ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 53/62] fix: fermat finds the root of a perfect square

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 2ed8636..6138c19 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -137,7 +137,7 @@ def fermat(n):
     if n % 2 == 0:
         return 2
 
-    for a in range(integer_sqrt(n) + 1, (n + 9)//6 + 1):
+    for a in range(integer_sqrt(n - 1) + 1, (n + 9)//6 + 1):
         t = a*a - n
         b = integer_sqrt(t)
         if b*b == t:
-- 
2.43.0


From de8a9003c8653e312c4c56ef9286a0949860fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 54/62] fix: gcd_list and lcm_list are nonnegative, and are
 defined for the empty list

---
 rosemary/number_theory/core.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/rosemary/number_theory/core.py b/rosemary/number_theory/core.py
index 274bd78..09c2e2c 100644
--- a/rosemary/number_theory/core.py
+++ b/rosemary/number_theory/core.py
@@ -57,13 +57,9 @@ def gcd_list(L):
         This function recursively uses the fact that
         gcd(a, b, c) = gcd(a, gcd(b, c)).
     """
-    num_values = len(L)
-    if num_values == 1:
-        return L[0]
-
-    partial = gcd(L[0], L[1])
-    for i in range(2, num_values):
-        partial = gcd(partial, L[i])
+    partial = 0
+    for value in L:
+        partial = gcd(partial, value)
     return partial
 
 
@@ -175,13 +171,9 @@ def lcm_list(L):
         This function recursively uses the fact that
         lcm(a, b, c) = lcm(a, lcm(b, c)).
     """
-    num_values = len(L)
-    if num_values == 1:
-        return L[0]
-
-    partial = lcm(L[0], L[1])
-    for i in range(2, num_values):
-        partial = lcm(partial, L[i])
+    partial = 1
+    for value in L:
+        partial = lcm(partial, value)
     return partial
 
 
-- 
2.43.0


From 74c96f3851d552b2ab9394dd1fc9722999a6f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 55/62] fix: fermat(3) does not end on the trivial divisor

---
 rosemary/number_theory/factorization/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/number_theory/factorization/algorithms.py b/rosemary/number_theory/factorization/algorithms.py
index 6138c19..04c878e 100644
--- a/rosemary/number_theory/factorization/algorithms.py
+++ b/rosemary/number_theory/factorization/algorithms.py
@@ -137,7 +137,7 @@ def fermat(n):
     if n % 2 == 0:
         return 2
 
-    for a in range(integer_sqrt(n - 1) + 1, (n + 9)//6 + 1):
+    for a in range(integer_sqrt(n - 1) + 1, min((n + 9)//6, n//2) + 1):
         t = a*a - n
         b = integer_sqrt(t)
         if b*b == t:
-- 
2.43.0


From 1abf7a2118349b998f3162782bb517fe10cfcc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 56/62] fix: powers of the zero polynomial

---
 rosemary/algebra/polynomials/algorithms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rosemary/algebra/polynomials/algorithms.py b/rosemary/algebra/polynomials/algorithms.py
index 83e6ae1..14dc510 100644
--- a/rosemary/algebra/polynomials/algorithms.py
+++ b/rosemary/algebra/polynomials/algorithms.py
@@ -130,9 +130,12 @@ def power_jcp(A, k):
         [1, 6, 13, 12, 4]
     """
     shift = 0
-    while A[shift] == 0:
+    while shift < len(A) and A[shift] == 0:
         shift += 1
 
+    if shift == len(A):
+        return [1] if k == 0 else [0]
+
     B = A[shift:]
     n = len(B)
     new_deg = (n - 1) * k + 1
-- 
2.43.0


From a9154ee88c3ca35f9acb7d9de75bd10042c27a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 57/62] fix: polynomial gcd follows the degrees of the
 remainders and stays exact

---
 rosemary/algebra/polynomials/polynomials.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index bcbd8e4..e9b87d9 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -386,12 +386,12 @@ class Polynomial(object):
         u = self.primitive_part()
         v = other.primitive_part()
         h = g = 1
-        dd = u.degree - v.degree
 
-        if dd < 0:
+        if u.degree < v.degree:
             return other.gcd(self)
 
         while True:
+            dd = u.degree - v.degree
             (q, r) = u.pseudo_quo_rem(v)
             if r == 0:
                 return d * v.primitive_part()
@@ -400,10 +400,8 @@ class Polynomial(object):
             u = v
             v = Polynomial([e // (g*h**dd) for e in r._coefficients])
             g = u.lead_coeff
-            if dd > 1:
+            if dd >= 1:
                 h = g**dd // h**(dd - 1)
-            else:
-                h = h**(1 - dd) // g**(-dd)
 
     def content(self):
         """
-- 
2.43.0


From 36a1e6510cbdb6d14ed6db3d64bfd9f37c19ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 58/62] fix: gcd with the zero polynomial

---
 rosemary/algebra/polynomials/polynomials.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rosemary/algebra/polynomials/polynomials.py b/rosemary/algebra/polynomials/polynomials.py
index e9b87d9..574aeed 100644
--- a/rosemary/algebra/polynomials/polynomials.py
+++ b/rosemary/algebra/polynomials/polynomials.py
@@ -387,8 +387,10 @@ class Polynomial(object):
         v = other.primitive_part()
         h = g = 1
 
-        if u.degree < v.degree:
-            return other.gcd(self)
+        if u.degree < v.degree or self == 0:
+            return other.gcd(self) if other != 0 else other
+        if other == 0:
+            return d * u
 
         while True:
             dd = u.degree - v.degree
@@ -424,6 +426,8 @@ class Polynomial(object):
         """
         coeffs = self._coefficients
         content = gcd_list(coeffs)
+        if content == 0:
+            return self
         if coeffs[-1] < 0:
             content *= -1
         parent_class = self.__class__
-- 
2.43.0


From fb3d12977d28ec2574312f6527e1a9767f82caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 59/62] fix: TravelingSalesman.solve returns the best tour

---
 rosemary/combinatorics/optimization/genetic_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/genetic_tsp.py b/rosemary/combinatorics/optimization/genetic_tsp.py
index c094bc2..cdbb284 100755
--- a/rosemary/combinatorics/optimization/genetic_tsp.py
+++ b/rosemary/combinatorics/optimization/genetic_tsp.py
@@ -164,7 +164,7 @@ class TravelingSalesman(object):
             current_cost = population[0][0]
 
             if current_cost < best_cost:
-                Xbest = list(population[1])
+                Xbest = list(population[0][1])
                 best_cost = current_cost
 
         return (best_cost, Xbest)
-- 
2.43.0


From b458b8d00c5a3bfe2152988e1559a9b97acb47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 60/62] fix: steepest_ascent_two_opt starts from a tour of the
 given distances

---
 rosemary/combinatorics/optimization/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/combinatorics/optimization/tsp.py b/rosemary/combinatorics/optimization/tsp.py
index f394963..cba3840 100644
--- a/rosemary/combinatorics/optimization/tsp.py
+++ b/rosemary/combinatorics/optimization/tsp.py
@@ -227,7 +227,7 @@ def steepest_ascent_two_opt(points, distance_matrix=None):
         distance_matrix = euclidean_distance_matrix(points)
 
     num_points = len(points)
-    best_cost, best_sol = farthest_insertion(points)
+    best_cost, best_sol = farthest_insertion(points, distance_matrix)
 
     def G(X, i, j):
         xi = X[i]
-- 
2.43.0


From 296eceda7c82fc83b2600797a58a1a5bc03ad3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 61/62] fix: culberson takes isolated vertices into the
 independent set

---
 rosemary/graphs/algorithms/independent_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rosemary/graphs/algorithms/independent_sets.py b/rosemary/graphs/algorithms/independent_sets.py
index 65867d2..6d647ab 100644
--- a/rosemary/graphs/algorithms/independent_sets.py
+++ b/rosemary/graphs/algorithms/independent_sets.py
@@ -159,7 +159,7 @@ def culberson(graph):
             return (0, 0, [])
 
         max_size = 0
-        max_deg = 0
+        max_deg = -1
         max_set = []
 
         vertices[0], vertices[-1] = vertices[-1], vertices[0]
-- 
2.43.0


From 43b93c8f10da5dd44b2a27be2dd2b0575bf1ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 62/62] fix: gabow breaks ties between exchanges of equal
 weight without comparing the trees

---
 rosemary/graphs/algorithms/spanning_trees.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rosemary/graphs/algorithms/spanning_trees.py b/rosemary/graphs/algorithms/spanning_trees.py
index 9c7e41b..66e52e3 100644
--- a/rosemary/graphs/algorithms/spanning_trees.py
+++ b/rosemary/graphs/algorithms/spanning_trees.py
@@ -1,4 +1,5 @@
 from heapq import heappush, heappop, heapify
+from itertools import count
 from random import choice
 
 from rosemary.data_structures.unionfind import UnionFind, NamedUnionFind
@@ -361,14 +362,17 @@ def gabow(graph, k=None):
     father[root] = root
 
     (exchange_weight, e, f) = find_exchange(father, [], [])
-    heap = [(tree_weight + exchange_weight, e, f, father, [], [])]
+
+    # entries of equal weight are ordered by when they were found
+    order = count()
+    heap = [(tree_weight + exchange_weight, next(order), e, f, father, [], [])]
 
     tree_edges = sorted([(min(x, y), max(x, y)) for (x, y) in father.items() if x != y])
     yield tree_weight, tree_edges
 
     j = 1
     while j < k:
-        (tree_weight, e, f, father, included, excluded) = heappop(heap)
+        (tree_weight, _, e, f, father, included, excluded) = heappop(heap)
 
         if tree_weight == inf:
             return
@@ -390,8 +394,8 @@ def gabow(graph, k=None):
         excluded_j = excluded + [e]
 
         (exchange_weight, e, f) = find_exchange(father, included_i, excluded)
-        heappush(heap, (new_tree_weight + exchange_weight, e, f, father, included_i, excluded))
+        heappush(heap, (new_tree_weight + exchange_weight, next(order), e, f, father, included_i, excluded))
 
         (exchange_weight, e, f) = find_exchange(new_father, included, excluded_j)
-        heappush(heap, (tree_weight + exchange_weight, e, f, new_father, included, excluded_j))
+        heappush(heap, (tree_weight + exchange_weight, next(order), e, f, new_father, included, excluded_j))
         j += 1
-- 
2.43.0

