na('P90', 'Primality and factorization answers are correct',
   'The primality tests answer correctly for every integer, and the factorization of every nonzero integer multiplies back to the integer with prime factors in increasing order.',
   ['inputs'], 'every integer', 'Tests sample a handful of integers.',
   ['rosemary/number_theory/primes', 'rosemary/number_theory/factorization'], [('factor', 'rosemary/number_theory/factorization/factorization.py:factor')],
   'The truth of the answer depends on the arithmetic value of unbounded integers; no dataflow or typing abstraction in reach separates a correct residue test from a subtly wrong one.')
na('P91', 'Graph algorithms and optimisers find the right value',
   'Shortest-path distances, minimum spanning trees, largest cliques and independent sets, chromatic numbers, Steiner trees, exact covers, Hamiltonian paths, optimal tours and knapsacks are what their definitions say, for every graph, weight function and instance.',
   ['inputs'], 'every graph, weight function and instance', 'Tests compare a few published instances.',
   ['rosemary/graphs', 'rosemary/combinatorics/optimization'], [('dijkstra', 'rosemary/graphs/algorithms/paths.py:dijkstra'), ('maximum clique', 'rosemary/graphs/algorithms/cliques.py:maximum_clique')],
   'Optimality is a statement about sums over all paths, subsets or colourings of a graph; it needs a proof of the algorithm (loop invariants over unbounded graphs), which no abstraction of this family supplies.  What the family can say of these searches is in P12, P13, P14 and P15.')
na('P92', 'Enumerations are complete and without repetition',
   'The combinatorial generators (permutations, combinations, tuples, compositions, partitions, Gray codes, trees) yield each object exactly once in the documented order, and the counting functions agree with them.',
   ['inputs'], 'every size', 'Tests enumerate a few small sizes.',
   ['rosemary/combinatorics'], [('permutations', 'rosemary/combinatorics/generation/permutations.py:knuth_algorithm_l'), ('counts', 'rosemary/combinatorics/enumeration/enumeration.py:binomial')],
   'The number and the order of the yields depend on values in arrays through arithmetic on indices; counting the objects of a size is running the generator.  P03 and P12 decide what static analysis can say of the generators.')
na('P93', 'Every call ends',
   'Every public operation ends for every argument of its documented domain (generators documented as endless excepted).',
   ['inputs', 'schedules'], 'every argument, every random choice', 'A test can only show that one call ended.',
   ['rosemary'], [('random factor search', 'rosemary/number_theory/factorization/algorithms.py:pollard_rho_brent'), ('local search', 'rosemary/combinatorics/optimization/tsp.py:steepest_ascent_two_opt')],
   'Ranking functions of these loops are number-theoretic (orders of elements, density of primes or residues) or probabilistic, or depend on gains of real-valued weights; a syntactic ranking analysis would judge only loops that are evidently finite.')
na('P94', 'Sieves and prime tables list every prime and nothing else',
   'For every bound the sieves, primes, prime_count and the segmented ranges give exactly the primes in the range, and the sieved tables the exact values of the arithmetic functions.',
   ['inputs'], 'every bound', 'Tests compare with a few known counts.',
   ['rosemary/number_theory/primes', 'rosemary/number_theory/arithmetic_functions'], [('sieve', 'rosemary/number_theory/primes/sieves.py:eratosthenes1')],
   'The marked positions are arithmetic progressions with symbolic starts and steps whose union has to be compared with the composites; that is an inductive number-theoretic argument, not dataflow.  The fixed parts (tables, wheels, formulas) are decided in P10, the edges of the ranges in P09.')
prop('P08', 'Arguments outside the documented domain are rejected',
     'An argument outside a documented domain is refused with the documented exception, for every such argument and whatever the others are, and the smallest or simplest '
     'admissible arguments are not refused.  ValueError: power_mod with a < 0, k < 0 or m < 1; inverse_mod with m < 2 or arguments that are not coprime; integer_log with b < 2 or n < 1; '
     'integer_nth_root with m < 0 or n < 1; integer_sqrt of a negative; jacobi_symbol with even m; chinese when any two moduli share a factor; is_power with k < 1 or n < 1; '
     'is_squarefree, euler_phi, moebius_mu, divisor_sigma, divisor_tau, carmichael_lambda and euler_phi_inverse of anything but a positive integer or a factorization of one; divisor_sigma and sigma_list with k < 0; '
     'euler_phi_list, moebius_list, sigma_list, tau_list, euler_phi_sum, euler_phi_weighted_sum, moebius_sum and sigma_sum with n < 1; factorial of a negative; primorial with n < 1; factor(0); factor_back of anything but a factorization; '
     'is_primitive_root, linear_congruence (n) and sqrts_mod_p (p) with a modulus below 2; multiplicative_order of a non-unit; Pell equations with D < 1 or D a square, and right-hand sides other than 1 and -1 for the fundamental solution; '
     'QuadraticIrrational of a square; bell_number of a negative; multinomial with no parts or parts adding up to more than n; shortest paths (dijkstra and its variants, bellman_ford) from or to a vertex that is not in the graph; degree extremes of a graph without vertices; '
     'deleting an edge given as a tuple of the wrong length; matrix sums, differences, products and determinants of incompatible dimensions; maximal_cliques and maximum_clique with an unknown algorithm name.  '
     'TypeError: divisors, prime_divisors, xdivisors, unitary_divisors and divisor_pairs with neither a number nor a factorization.',
     ['inputs'], 'every argument outside the domain (an unbounded set per restriction), every value of the other arguments',
     'Each restriction concerns infinitely many inputs; the tests try one or two of them, mostly far from the boundary, and many restrictions not at all.',
     ['rosemary/number_theory/core.py', 'rosemary/number_theory/arithmetic_functions', 'rosemary/number_theory/factorization/factorization.py', 'rosemary/number_theory/diophantine_equations/pell.py',
      'rosemary/number_theory/zn_arithmetic.py', 'rosemary/graphs/algorithms/paths.py', 'rosemary/algebra/matrices/matrices.py', 'rosemary/combinatorics/enumeration/enumeration.py'],
     [('argument guards', 'rosemary/number_theory/core.py:power_mod'), ('shared guard of the arithmetic functions', 'rosemary/number_theory/arithmetic_functions/functions.py:euler_phi'),
      ('dimension checks', 'rosemary/algebra/matrices/matrices.py:Matrix.__add__')],
     'interval/parity/length abstract interpretation: normal exit unreachable from the complement of each domain, reachable from its boundary',
     'Each restriction is an abstract call covering the whole complement of the domain (except: perfect squares, represented by one square; matrix dimensions, represented by some pairs).')
prop('P11', 'Integer answers are exact, never computed through floating point',
     'Every operation whose documented result is made of integers gives it by exact integer arithmetic, for integers of any size: no integer that can exceed 2**53 is turned into a '
     'floating-point number on the way to the answer, so there is no rounding near perfect powers, no loss of digits and no OverflowError for large inputs.  This covers square, cube and n-th roots, '
     'prime counting and listing, sums over primes and of arithmetic functions, sieves of intervals, partition and Bernoulli tables, Pell equations, continued fractions, determinants and '
     'polynomial arithmetic over the integers, and graph weights given as integers.  Floating point appears only where the documented result is real (density of a graph, tours in the plane, knapsack '
     'heuristics) or as a logarithm that chooses how far to search (primes_first_n, primorial, continued-fraction factoring, the deterministic Miller-Rabin bound).',
     ['inputs'], 'every public function documented to return integers, integer arguments of every size',
     'Doubles are exact for the small numbers that tests use; rounding shows only above 2**53 or next to perfect powers, and overflow only above 2**1024.',
     ['rosemary/number_theory/core.py', 'rosemary/number_theory/sums.py', 'rosemary/number_theory/primes', 'rosemary/number_theory/arithmetic_functions', 'rosemary/number_theory/diophantine_equations',
      'rosemary/algebra', 'rosemary/combinatorics'],
     [('integer square root', 'rosemary/number_theory/core.py:integer_sqrt'), ('prime counting', 'rosemary/number_theory/primes/prime_counting.py'),
      ('sums of arithmetic functions', 'rosemary/number_theory/arithmetic_functions/sums.py')],
     'interprocedural provenance and interval analysis of integer-to-float conversions',
     'Every conversion reachable from every public function with integer arguments; an integer proved below 2**53 may be converted.')
prop('P09', 'Smallest, empty and degenerate inputs get their defined answers',
     'The smallest, empty and degenerate inputs of the public operations are answered, not refused, and with the answer their definition gives.  '
     'Empty lists and factorizations: gcd_list([]) = 0, lcm_list([]) = 1, factor_back([]) = 1, euler_phi, divisor_tau, divisor_sigma and carmichael_lambda of [] = 1, '
     'has_three_term_ap([]) is False, is_graphic([]) is True, list_add([], []) = [], products with the empty polynomial are [], euclidean_distance_matrix([]) = [], the permutation generators of [] give exactly [[]].  '
     'One: factor(1) = [], moebius_mu(1) = 1 and the sieved lists up to 1 are [0, 1], sums of arithmetic functions up to 1 are 1, euler_phi_inverse(1) = [1, 2] and of any odd number above 1 is [].  '
     'Zero: gcd(0, 0) = 0, lcm with 0 is 0, integer_sqrt(0) = 0, bit_count(0) = 0, factorial(0) = 1, power_mod(a, 0, m) = 1 (0 for m = 1), jacobi_symbol(0, m) = 0, jacobi_symbol(a, 1) = 1, valuation(p, 1) = 0, '
     'integer_nth_root(k, 0) = 0, combinations(n, 0) has one element, binomial(0, k) = 0, bell_number(0) = partition_number(0) = stirling_number2(0, 0) = 1, partition_list(0) = [1], bernoulli_list(0) = [1], zero-step powers of power series are 1.  '
     'Every integer below 2: is_prime and is_probable_prime are False, next_prime is 2, the prime counting functions (legendre, lehmer, meissel, lmo, lmo_bit) are 0, the sieves (chartres, eratosthenes1, eratosthenes2, luo, pritchard) are []; '
     'every negative number is neither a square nor a factorial; sign conventions: gcd, gcd_list, lcm are never negative, jacobi_symbol is -1, 0 or 1.  '
     'Even numbers: fermat finds 2.  Modulus 2: linear_congruence, primitive_root, sqrts_mod_p and roots of unity have their answers.  '
     'Graphs without vertices, with one vertex or without edges: no edges, degree 0, empty leaves, no components for no vertices, chromatic number 0 and clique and independence number 0 for no vertices, '
     'spanning trees (prim, kruskal) and Steiner trees of weight 0 with no edges, traversals that visit exactly the start, shortest-path tables that are empty, copies, complements and induced subgraphs by nothing that are empty.  '
     'Containers: empty heaps have length 0 and no elements, a heap of one element returns it, union-find of one element finds it, a new sieve has partial sum 0 up to 0, knapsack and exact-cover problems without items or rows are answered.  '
     '1x1 and zero matrices: determinants, sums, products and entries are right.',
     ['inputs'], 'every member of each boundary class (every integer below 2, every odd number, every list, every edgeless graph, every label ...)',
     'The classes are infinite or are the inputs nobody writes tests for; a test samples one member of a few of them.',
     ['rosemary/number_theory', 'rosemary/algebra', 'rosemary/combinatorics', 'rosemary/graphs', 'rosemary/data_structures'],
     [('boundary cases of the prime functions', 'rosemary/number_theory/primes/primality.py:is_prime'), ('empty graph', 'rosemary/graphs/algorithms/coloring.py:dsatur'),
      ('empty lists', 'rosemary/number_theory/core.py:gcd_list')],
     'abstract interpretation (intervals, parity, container lengths and contents, loop peeling) of one call per boundary class',
     'Each entry covers every member of its class; an abstract answer that includes the defined answer among others is not reported.')
prop('P10', 'Precomputed tables and hand-expanded formulas are complete and correct',
     'Every table and every hand-expanded case analysis written into the source is the mathematical object it stands for, in every row and every case.  '
     'The stored list of primes (and the short list of primes used to choose a continued-fraction multiplier) contains consecutive primes without gaps or intruders; the table of primes up to n for tiny n is right in each row.  '
     'The expanded formulas for the number of integers up to x free of the first a primes (a = 1 to 7, in the Meissel and Lehmer prime counts) are the inclusion-exclusion formula for exactly the a they are used for, for every x.  '
     'The trial-division wheel has a step for every residue coprime to 30 and each step leads to the next such residue, so no candidate divisor is skipped.  '
     'The padding tables of the sieves have a row for every residue of n modulo 6 and all rows round to the same residue; the candidates returned by eratosthenes1, eratosthenes2, luo and pritchard start right after the listed small primes and end exactly at n, for every residue class of n.  '
     'The residue tables of is_square contain every square residue, so no perfect square is rejected.  '
     'jacobi_symbol changes sign exactly for m = 3, 5 (mod 8) and for a = m = 3 (mod 4); the exponents of the modular square root are exact quotients in each residue class of p in which they are used; square roots modulo 4 and 8 are searched among all residues of that one modulus.  '
     'The sudoku constraints are cell, row, column and 3x3 box for every row, column and digit; petersen_graph() has the edges of the Petersen graph.',
     ['inputs'], 'every row of every table, every residue class and every x and n the formulas are used for',
     'Each row or term matters for a thin set of large inputs only (a missing term of a 128-term formula, a missing prime near a million, one residue of 45045); tests touch a few of them.',
     ['rosemary/number_theory/prime_list.py', 'rosemary/number_theory/primes/prime_counting.py', 'rosemary/number_theory/primes/sieves.py', 'rosemary/number_theory/factorization/algorithms.py',
      'rosemary/number_theory/classification.py', 'rosemary/number_theory/zn_arithmetic.py', 'rosemary/combinatorics/optimization/exact_cover.py', 'rosemary/graphs/graphs.py'],
     [('expanded formulas', 'rosemary/number_theory/primes/prime_counting.py:meissel'), ('wheel', 'rosemary/number_theory/factorization/algorithms.py:trial_division'),
      ('residue tables', 'rosemary/number_theory/classification.py:_IsSquare')],
     'constant propagation over tables and initialisers, floor-linear normal forms, affine forms per residue class, congruence analysis of branches',
     'Every table and formula recognised by its use; counts of rows, terms and residue classes are in the evidence.')
prop('P14', 'Every way out gives a result of the documented kind',
     'On every path, for every argument in the documented domain and every value of the options, each public operation gives a result of the kind its documentation describes, down to the kinds of the elements, keys and items and the order and number of the items of a tuple; '
     'no path falls off the end, returns nothing, hands out a one-shot iterator or a set where a list is documented, or a float where an integer is documented.  '
     'Integers: the arithmetic functions and their sums, gcd and its relatives, roots and logarithms, prime counts and sums, enumeration counts, factor-finding algorithms (cfrac may give None).  '
     'Lists of integers: sieves and sieved tables, primes, divisors, prime_divisors, congruence solutions and roots, polynomial and power-series coefficients.  '
     'Lists of pairs: factor, divisor_pairs, pell_minimal_positive_solutions.  Generators: xdivisors, prime_range, moebius_range, factored_range, convergents, Pell solutions, the combinatorial generators, maximal cliques and independent sets, Hamiltonian paths, exact covers, dijkstra_iterator (vertex, distance, path), gabow, traversals.  '
     'Truth values: the primality tests, is_squarefree, is_factorial, is_primitive_root, is_graphic, is_connected; is_square, is_power and has_three_term_ap give the witness or False.  '
     'Pairs: shortest paths give (distances, predecessors) as two dicts, dijkstra_bidirectional (distance, path) or infinity; spanning and Steiner trees (weight, edge list) or, for prim without edge_list, (weight, predecessor dict); colourings (number, list of classes) or, with classes=False, (number, dict); '
     'largest cliques and independent sets (size, list); travelling-salesman and knapsack searches (value, list of indices or items); quo_rem and pseudo_quo_rem two Polynomials.  '
     'Graph, matrix and polynomial operations give graphs, matrices and polynomials; mutators such as add_edge, insert and union give None; edges and edge_set give pairs, or triples with weights=True.',
     ['inputs'], 'every path of every public operation, every option value',
     'Tests compare a few answers; Python checks no result kinds, so a rarely taken return statement can give anything, and 4.0 == 4 hides a float in every equality test.',
     ['rosemary'], [('results of graph searches', 'rosemary/graphs/algorithms/paths.py:dijkstra_bidirectional'), ('options that change the result', 'rosemary/graphs/algorithms/coloring.py:dsatur'),
                    ('integer results', 'rosemary/number_theory/core.py:integer_nth_root')],
     'kind inference by abstract interpretation, compared per return statement with a table of documented kinds',
     'Parts of results that are the caller\'s own values (vertices, weights, keys) or that the inference loses (deep containers, dynamic calls) are not judged.')
prop('P15', 'Lists documented as sorted come out sorted; heaps are handled only as heaps',
     'The lists that these operations hand out are in ascending order on every path, whatever the order in which sets, factorizations, insertions or searches produced their entries, and nothing changes them after they were put in order: '
     'divisors, unitary_divisors, prime_divisors (for a factorization given in order), factor (by prime), euler_phi_inverse, fibonacci_primitive_roots, sqrts_mod_p, sqrts_mod_n, nth_roots_of_unity_mod_p, nth_roots_of_minus1_mod_p, linear_congruence, quadratic_congruence, pell_minimal_positive_solutions, longest_ap, '
     'Graph.vertices (default order), Graph.edges, the edge lists of prim, kruskal, cheriton_tarjan and distance_network_heuristic, the vertices of the greedy independent set, the items of dynamic_programming for knapsacks.  '
     'A list whose smallest entry is taken with heapq (shortest paths, spanning trees, sieves) was made a heap on every path before, and since then only heapq has changed it, so the entry taken is the smallest.',
     ['inputs'], 'every return statement of the listed operations, every heap operation of every function',
     'Whether an unsorted list happens to be in order depends on the hashes and on the input; small integers iterate in ascending order from a set, so most tests pass without the sort, and a heap damaged by one append still gives the right entry most of the time.',
     ['rosemary'], [('roots and solutions of congruences', 'rosemary/number_theory/zn_arithmetic.py:sqrts_mod_n'), ('divisors', 'rosemary/number_theory/factorization/factorization.py:divisors'),
                    ('queues of the shortest-path searches', 'rosemary/graphs/algorithms/paths.py:dijkstra'), ('edge lists', 'rosemary/graphs/algorithms/spanning_trees.py:kruskal')],
     'must-typestate over abstract lists (in order / heap), with aliases and callees',
     'Operations without a documented order (divisor_pairs, gabow) are not judged; a heap that is a parameter is judged where it is made.')
prop('P13', 'The best solution kept by a search is a snapshot, recorded with its value',
     'Where an operation keeps the best it has found so far and compares new candidates with it (estimates and predecessors of shortest paths and spanning trees, largest cliques and independent sets, cheapest tours, colourings, knapsacks, Steiner trees, matchings of exchange edges, largest divisors), then on every path: '
     'the value stored is exactly the value that passed the comparison; the solution that attains it (predecessor, path, vertex list, colour map, items, indices) is recorded in the same step, never the value without it nor it without the value; '
     'and the recorded solution is a snapshot that neither the rest of the search, nor its recursion, nor anything it calls changes afterwards.  So the value and the solution handed out belong together.',
     ['inputs', 'histories'], 'every comparison with a place that the controlled branch overwrites, every later change of what was recorded',
     'A search that improves its record once, or last at its very end, gives the right answer even when the record is an alias of the working buffer or one of two branches forgets the solution; which happens depends on the order of the search on that input.',
     ['rosemary'], [('incumbents of colouring searches', 'rosemary/graphs/algorithms/coloring.py:branch_and_bound'), ('incumbents of clique searches', 'rosemary/graphs/algorithms/cliques.py:pardalos'),
                    ('estimates and predecessors', 'rosemary/graphs/algorithms/paths.py:dijkstra_pairing_heap'), ('cheapest tours', 'rosemary/combinatorics/optimization/tsp.py:simulated_annealing_two_opt')],
     'alias-aware typestate over abstract objects (recorded, then changed) and a path check over the branches that improve a record',
     'Records inside a helper that gets both the old and the new solution as parameters, and improvements written with min() or max(), are outside rules 2 and 3; an object returned by a call is taken as fresh.')
prop('P12', 'Loops do not resize what they run over; opened files are closed on all paths',
     'While a for loop runs over a list, set, dict, deque or a view of a dict, and goes on to its next item, the container it runs over keeps its size and order: neither the loop body nor anything it calls removes, inserts, adds or re-orders entries of that same container '
     '(appending to a list that serves as a worklist is allowed, as is leaving the loop right after the change).  So no operation raises "changed size during iteration" or silently skips or repeats items for some inputs.  '
     'Every file that the library opens (the graph loaders) is closed on every path, also when a malformed line raises an exception.',
     ['inputs'], 'every loop of every function reachable from the public ones, every path through its body and its callees',
     'Whether an item is skipped, or the error raised, depends on the hashes, the order and the number of the entries at the moment of the change; most inputs of most tests do not show it.',
     ['rosemary'], [('vertices removed during searches', 'rosemary/graphs/algorithms/cliques.py:tomita'), ('tables that grow while they are read', 'rosemary/number_theory/arithmetic_functions/inverse_functions.py:inverse_phi'),
                    ('file loaders', 'rosemary/graphs/graphs.py:load_graph')],
     'typestate over loops on an abstract heap (identity of the iterated container, effects of callees), and a syntactic protocol check for files',
     'Only containers whose identity the analysis knows: an entry of a table resized through another entry of the same table is not judged.')
