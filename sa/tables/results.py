"""P14: the kind of result of every public operation, from the documentation (examples, Returns sections) and, where it is silent,
from what every path of the operation gives.

Grammar: int bool num str None ? (a caller's own value: vertex, label, key) list[..] set[..] gen[..] dict[k: v] (a, b) Class; | for alternatives;
a bare list or tuple has any elements.  A name with (option=value) is the operation called with that option."""

KINDS = {
    'rosemary/algebra/matrices/matrices.py': {
        'Matrix.__add__': 'Matrix',
        'Matrix.__getitem__': 'num | list',
        'Matrix.__mul__': 'Matrix',
        'Matrix.__neg__': 'Matrix',
        'Matrix.__radd__': 'Matrix',
        'Matrix.__repr__': 'str',
        'Matrix.__rmul__': 'Matrix',
        'Matrix.__rsub__': 'Matrix',
        'Matrix.__setitem__': 'None',
        'Matrix.__sub__': 'Matrix',
        'Matrix.delete_col': 'Matrix',
        'Matrix.delete_row': 'Matrix',
        'Matrix.determinant': 'num',
    },
    'rosemary/algebra/polynomials/algorithms.py': {
        'list_add': 'list[int]',
        'list_subtract': 'list[int]',
        'mul_classical': 'list[int]',
        'mul_karatsuba': 'list[int]',
        'power_jcp': 'list[int]',
    },
    'rosemary/algebra/polynomials/polynomials.py': {
        'Polynomial.__add__': 'Polynomial',
        'Polynomial.__call__': 'num',
        'Polynomial.__eq__': 'bool',
        'Polynomial.__getitem__': 'int',
        'Polynomial.__mul__': 'Polynomial',
        'Polynomial.__ne__': 'bool',
        'Polynomial.__neg__': 'Polynomial',
        'Polynomial.__pow__': 'Polynomial',
        'Polynomial.__radd__': 'Polynomial',
        'Polynomial.__repr__': 'str',
        'Polynomial.__rmul__': 'Polynomial',
        'Polynomial.__rsub__': 'Polynomial',
        'Polynomial.__sub__': 'Polynomial',
        'Polynomial.coefficients': 'list[int]',
        'Polynomial.content': 'int',
        'Polynomial.gcd': 'Polynomial',
        'Polynomial.power_binary': 'Polynomial',
        'Polynomial.primitive_part': 'Polynomial',
        'Polynomial.pseudo_quo_rem': '(Polynomial, Polynomial)',
        'Polynomial.quo_rem': '(Polynomial, Polynomial)',
    },
    'rosemary/algebra/power_series/power_series.py': {
        'delta_series': 'list[int]',
        'eta_series': 'list[int]',
        'ps_invert': 'list[int]',
        'ps_mult_classical': 'list[int]',
        'ps_mult_karatsuba': 'list[int]',
        'ps_power': 'list[int]',
    },
    'rosemary/combinatorics/enumeration/enumeration.py': {
        'bell_number': 'int',
        'binomial': 'int',
        'bipartitions': 'int',
        'multinomial': 'int',
        'necklaces': 'int',
        'number_of_domino_tilings': 'int',
        'partition_list': 'list[int]',
        'partition_number': 'int',
        'rth_power_partition_number': 'int',
        'stirling_number2': 'int',
        'triomino_tilings': 'int',
    },
    'rosemary/combinatorics/generation/combinations.py': {
        'combinations': 'gen[list[int]]',
    },
    'rosemary/combinatorics/generation/partitions.py': {
        'integer_partitions': 'gen[list[int]]',
    },
    'rosemary/combinatorics/generation/permutations.py': {
        'knuth_algorithm_l': 'gen[list[?]]',
        'knuth_algorithm_l_rvariations': 'gen[list[?]]',
        'knuth_algorithm_l_variations': 'gen[list[?]]',
        'phillips': 'gen[list[?]]',
    },
    'rosemary/combinatorics/generation/tuples.py': {
        'n_tuples': 'gen[list[int]]',
    },
    'rosemary/combinatorics/optimization/exact_cover.py': {
        'ExactCover.__repr__': 'str',
        'ExactCoverBinary.number_of_solutions': 'int',
        'ExactCoverBinary.solutions': 'gen[list[int]]',
        'algorithm_dlx': 'gen[list[list]]',
        'algorithmx': 'gen[list[list]]',
        'domino_ints': 'list[int]',
        'domino_tilings': 'int',
        'langford_ints': 'list[int]',
        'langford_pairings': 'int',
        'latin_square_ints': 'list[int]',
        'parse': 'list[list[int]]',
        'sudoku_dlx': 'str',
        'sudoku_vectors': 'list[set[str]]',
        'to_string': 'str',
    },
    'rosemary/combinatorics/optimization/genetic_tsp.py': {
        'TravelingSalesman.cost': 'num',
        'TravelingSalesman.mgkrec': 'list[(num, list[int])]',
        'TravelingSalesman.select': 'list[(num, list[int])]',
        'TravelingSalesman.solve': '(num, list[int])',
        'TravelingSalesman.two_opt': '(num, list[int])',
    },
    'rosemary/combinatorics/optimization/knapsack.py': {
        'branch_and_bound_depth_first': 'list[num | list[(num, num, int)]]',
        'depth_first': '(num, list[(num, num)])',
        'dynamic_programming': '(num, list[tuple])',
        'simulated_annealing': '(num, list[int])',
    },
    'rosemary/combinatorics/optimization/tsp.py': {
        'branch_and_bound': 'list[num | list[int]]',
        'cost': 'num',
        'depth_first': 'list[num | list[int]]',
        'euclidean_distance_matrix': 'list[list[num]]',
        'farthest_insertion': '(num, list[int]) | set[(int, int)]',
        'random_two_opt': 'list[int]',
        'simulated_annealing_two_opt': '(num, list[int])',
        'steepest_ascent_two_opt': '(num, list[int])',
        'two_opt': '(num, list[int])',
    },
    'rosemary/combinatorics/recreational/alphametics.py': {
        'solve': 'gen[(list[int], list[int])]',
    },
    'rosemary/data_structures/bit_sieve.py': {
        'BITSieve.entries': 'list[int]',
        'BITSieve.mark_multiples': 'None',
        'BITSieve.partial_sum': 'int',
        'BITSieve.update': 'None',
        'BITSieveArray.entries': 'list[int]',
        'BITSieveArray.mark_multiples': 'None',
        'BITSieveArray.partial_sum': 'int',
    },
    'rosemary/data_structures/heaps.py': {
        'LeftistHeap.__iter__': 'gen[?]',
        'LeftistHeap.__len__': 'int',
        'LeftistHeap.__repr__': 'str',
        'LeftistHeap.delete_min': '?',
        'LeftistHeap.find_min': '?',
        'LeftistHeap.insert': 'None',
        'LeftistHeap.merge': 'None',
        'PairingHeap.decrease_key': 'None',
        'PairingHeap.delete_min': '_PairingHeapNode | None',
        'PairingHeap.insert': 'None',
        'PairingHeap.insert_node': 'None',
        'PairingHeap.insert_values': 'None',
        'PairingHeap.list_elements': 'list[(?, ?)]',
    },
    'rosemary/data_structures/unionfind.py': {
        'NamedUnionFind.find': '?',
        'NamedUnionFind.union': 'None',
        'UnionFind.find': '?',
        'UnionFind.union': 'None',
    },
    'rosemary/graphs/algorithms/cliques.py': {
        'bron_kerbosch': 'gen[list[?]]',
        'bron_kerbosch_binary': 'gen[list[?]]',
        'maximal_cliques': 'gen[list[?]]',
        'maximum_clique': '(int, list[?])',
        'maximum_weight_clique': '(num, list[?])',
        'ostergard': '(int, list[?])',
        'ostergard_binary': '(int, list[?])',
        'pardalos': '(int, list[?])',
        'pardalos_binary': '(int, list[?])',
        'tomita': 'gen[list[?]]',
    },
    'rosemary/graphs/algorithms/coloring.py': {
        'branch_and_bound(classes=True)': '(int, list[list[?]])',
        'branch_and_bound(classes=False)': '(int, dict[?: int])',
        'dsatur(classes=True)': '(int, list[list[?]])',
        'dsatur(classes=False)': '(int, dict[?: int])',
        'exact_coloring(classes=True)': '(int, list[list[?]])',
        'exact_coloring(classes=False)': '(int, dict[?: int])',
        'greedy_sequential(classes=True, passes=1)': '(int, list[list[?]])',
        'greedy_sequential(classes=False, passes=1)': '(int, dict[?: int])',
        'greedy_sequential(classes=True, passes=2)': '(int, list[list[?]])',
        'greedy_sequential(classes=False, passes=2)': '(int, dict[?: int])',
        'korman(classes=True)': '(int, list[list[?]])',
        'korman(classes=False)': '(int, dict[?: int])',
        'maxis(classes=True)': '(int, list[list[?]])',
        'maxis(classes=False)': '(int, dict[?: int])',
    },
    'rosemary/graphs/algorithms/connectivity.py': {
        'connected_component': 'list[?]',
        'connected_components': 'list[list[?]]',
        'is_connected': 'bool',
    },
    'rosemary/graphs/algorithms/degree_sequences.py': {
        'is_graphic': 'bool',
        'is_graphic_erdos_gallai': 'bool',
    },
    'rosemary/graphs/algorithms/hamiltonian_paths.py': {
        'hamiltonian_paths': 'gen[list[?]]',
        'hamiltonian_paths_con': 'gen[list[?]]',
        'is_connected2': 'bool',
        'number_of_hamiltonian_paths': 'int',
        'number_of_hamiltonian_paths5': 'int',
        'number_of_hamiltonian_paths5_con': 'int',
        'number_of_hamiltonian_paths_bits': 'int',
        'number_of_hamiltonian_paths_bits_con': 'int',
        'walks': 'dict[?: int]',
    },
    'rosemary/graphs/algorithms/independent_sets.py': {
        'branch_and_bound': '(int, list[?])',
        'culberson': '(int, list[?])',
        'greedy': '(int, list[?])',
        'maximal_independent_sets': 'gen[list[?]]',
        'maximum_independent_set': '(int, list[?])',
    },
    'rosemary/graphs/algorithms/paths.py': {
        'bellman_ford': '(dict[?: num], dict[?: ? | None])',
        'dijkstra': '(dict[?: num], dict[?: ? | None])',
        'dijkstra_bidirectional': '(num, list[?]) | (int, list[?]) | float',
        'dijkstra_buckets': '(dict[?: num], dict[?: ? | None])',
        'dijkstra_iterator': 'gen[(?, num, list[?])]',
        'dijkstra_pairing_heap': '(dict[?: num], dict[?: ? | None])',
        'floyd_warshall': '(dict[(?, ?): num], dict[(?, ?): ? | None])',
    },
    'rosemary/graphs/algorithms/spanning_trees.py': {
        'cheriton_tarjan': '(num, list[(?, ?)])',
        'gabow': 'gen[(num, list[(?, ?)])]',
        'kruskal': '(num, list[(?, ?)])',
        'prim(edge_list=True)': '(num, list[(?, ?)])',
        'prim(edge_list=False)': '(num, dict[?: ? | None])',
    },
    'rosemary/graphs/algorithms/steiner_trees.py': {
        'distance_network_heuristic': '(num, list[(?, ?)])',
        'minimum_cost_paths_heuristic': '(num, list[(?, ?)])',
    },
    'rosemary/graphs/algorithms/traversal.py': {
        'breadth_first_search': 'gen[?]',
        'breadth_first_search_tree': 'dict[?: ? | None]',
        'depth_first_search': 'gen[?]',
        'depth_first_search_tree': 'dict[?: ? | None]',
    },
    'rosemary/graphs/graphs.py': {
        'Graph.__getitem__': 'dict',
        'Graph.__iter__': 'gen[?]',
        'Graph.__repr__': 'str',
        'Graph.add_edge': 'None',
        'Graph.add_edges': 'None',
        'Graph.add_vertex': 'None',
        'Graph.add_vertices': 'None',
        'Graph.adjacency_matrix': 'MatrixZZ',
        'Graph.closed_neighborhood': 'set[?]',
        'Graph.complement': 'Graph',
        'Graph.copy': 'Graph',
        'Graph.degree': 'int',
        'Graph.degree_matrix': 'MatrixZZ',
        'Graph.delete_edge': 'None',
        'Graph.delete_vertex': 'None',
        'Graph.delete_vertices': 'None',
        'Graph.density': 'float',
        'Graph.edge_set(weights=True)': 'set[(?, ?, num)]',
        'Graph.edge_set(weights=False)': 'set[(?, ?)]',
        'Graph.edges(weights=True)': 'list[(?, ?, num)]',
        'Graph.edges(weights=False)': 'list[(?, ?)]',
        'Graph.induced_subgraph': 'Graph',
        'Graph.laplacian_matrix': 'MatrixZZ',
        'Graph.leaves': 'set[?]',
        'Graph.maximum_degree': 'int',
        'Graph.maximum_degree_vertex': '?',
        'Graph.minimum_degree': 'int',
        'Graph.minimum_degree_vertex': '?',
        'Graph.neighbors': 'set[?]',
        'Graph.num_edges': 'int',
        'Graph.num_vertices': 'int',
        'Graph.remove_closed_neighborhood': 'Graph',
        'Graph.remove_edge': 'Graph',
        'Graph.remove_neighborhood': 'Graph',
        'Graph.remove_vertex': 'Graph',
        'Graph.remove_vertices': 'Graph',
        'Graph.total_degree': 'int',
        'Graph.vertex_set': 'set[?]',
        'Graph.vertices': 'list[?]',
        'complete_graph': 'Graph',
        'coprime_pairs_graph': 'Graph',
        'grid_graph': 'Graph',
        'load_dimacs_graph': 'Graph',
        'load_graph': 'Graph',
        'odd_graph': 'Graph',
        'petersen_graph': 'Graph',
        'random_graph': 'Graph',
    },
    'rosemary/number_theory/arithmetic_functions/functions.py': {
        'carmichael_lambda': 'int',
        'carmichael_lambda(n=PAIRS)': 'int',
        'divisor_sigma': 'int',
        'divisor_sigma(n=PAIRS)': 'int',
        'divisor_tau': 'int',
        'divisor_tau(n=PAIRS)': 'int',
        'euler_phi': 'int',
        'euler_phi(n=PAIRS)': 'int',
        'factorial': 'int',
        'moebius_mu': 'int',
        'moebius_mu(n=PAIRS)': 'int',
        'primorial': 'int',
    },
    'rosemary/number_theory/arithmetic_functions/inverse_functions.py': {
        'euler_phi_inverse': 'list[int]',
        'euler_phi_inverse(n=PAIRS)': 'list[int]',
        'inverse_phi': 'list[int]',
    },
    'rosemary/number_theory/arithmetic_functions/sieves.py': {
        'euler_phi_list': 'list[int]',
        'moebius_list': 'list[int]',
        'moebius_range': 'gen[(int, int)]',
        'sigma_list': 'list[int]',
        'tau_list': 'list[int]',
    },
    'rosemary/number_theory/arithmetic_functions/sums.py': {
        'euler_phi_sum': 'int',
        'euler_phi_weighted_sum': 'int',
        'moebius_sum': 'int',
        'sigma_sum': 'int',
    },
    'rosemary/number_theory/arithmetic_progressions.py': {
        'has_three_term_ap': '(int, int, int) | bool',
        'longest_ap': 'list[tuple[int]]',
    },
    'rosemary/number_theory/classification.py': {
        'is_factorial': 'bool',
        'is_power': '(int, int) | bool',
        'is_power(n=PAIRS)': '(int, int) | bool',
        'is_power2': '(int, int) | bool',
        'is_square': 'bool | int',
        'is_square(n=PAIRS)': 'bool | int',
        'is_squarefree': 'bool',
        'is_squarefree(n=PAIRS)': 'bool',
    },
    'rosemary/number_theory/continued_fractions.py': {
        'QuadraticIrrational.__repr__': 'str',
        'QuadraticIrrational.convergents': 'gen[(int, int)]',
        'QuadraticIrrational.partial_quotients': 'gen[int]',
    },
    'rosemary/number_theory/core.py': {
        'bit_count': 'int',
        'chinese': 'int',
        'chinese_preconditioned': 'int',
        'crt_preconditioning_data': '(int, list[int], list[int], list[int], int)',
        'ext_gcd': '(int, int, int)',
        'gcd': 'int',
        'gcd_list': 'int',
        'integer_log': 'int',
        'integer_nth_root': 'int',
        'integer_sqrt': 'int',
        'inverse_mod': 'int',
        'jacobi_symbol': 'int',
        'lcm': 'int',
        'lcm_list': 'int',
        'power_mod': 'int',
        'valuation': 'int',
    },
    'rosemary/number_theory/diophantine_equations/pell.py': {
        'PellEquation.__repr__': 'str',
        'PellEquation.resolvent_solution': '(int, int)',
        'farey': '(int, int)',
        'pell_fundamental_solution': '(int, int)',
        'pell_minimal_positive_solutions': 'list[(int, int)]',
        'pell_small': 'gen[(int, int)]',
        'pell_solution_generator': 'gen[(int, int)]',
    },
    'rosemary/number_theory/factorization/algorithms.py': {
        'cfrac': 'int | None',
        'fermat': 'int',
        'lehman': 'int',
        'pollard_p_minus_1': 'int',
        'pollard_rho': 'int',
        'pollard_rho_brent': 'int',
        'smooth_factor': 'list[int]',
        'trial_division': 'int',
    },
    'rosemary/number_theory/factorization/factorization.py': {
        'divisor_pairs': 'list[(int, int)]',
        'divisors': 'list[int]',
        'factor': 'list[(int, int)]',
        'factor_back': 'int',
        'factored_range': 'gen[(int, list[(int, int)])]',
        'prime_divisors': 'list[int]',
        'unitary_divisors': 'list[int]',
        'xdivisors': 'gen[int]',
    },
    'rosemary/number_theory/misc.py': {
        'bernoulli_list': 'list[num]',
        'largest_divisor': 'int',
        'maximize_divisors': '(int, int)',
    },
    'rosemary/number_theory/primes/primality.py': {
        'is_prime': 'bool',
        'is_probable_prime': 'bool',
        'lucas_lehmer': 'bool',
        'miller_rabin': 'bool',
        'miller_rabin_deterministic': 'bool',
        'next_prime': 'int',
        'next_probable_prime': 'int',
        'random_prime': 'int',
        'solovay_strassen': 'bool',
    },
    'rosemary/number_theory/primes/prime_counting.py': {
        'legendre': 'int',
        'lehmer': 'int',
        'lmo': 'int',
        'lmo_bit': 'int',
        'meissel': 'int',
        'pi_table': '(list[int], list[int])',
        'prime_count': 'dict[int: int]',
        'prime_sum': 'int',
        'prime_sum2': 'int',
    },
    'rosemary/number_theory/primes/sieves.py': {
        'chartres': 'list[int]',
        'eratosthenes1': 'list[int]',
        'eratosthenes2': 'list[int]',
        'luo': 'list[int]',
        'prime_range': 'gen[int]',
        'primes': 'list[int]',
        'primes_first_n': 'list[int]',
        'pritchard': 'list[int]',
    },
    'rosemary/number_theory/zn_arithmetic.py': {
        'discrete_log': 'int',
        'fibonacci_primitive_roots': 'list[int]',
        'is_primitive_root': 'bool',
        'linear_congruence': 'list[int]',
        'multiplicative_order': 'int',
        'nth_roots_of_minus1_mod_p': 'list[int]',
        'nth_roots_of_unity_mod_p': 'list[int]',
        'primitive_root': 'int',
        'quadratic_congruence': 'list[int]',
        'sqrts_mod_n': 'list[int]',
        'sqrts_mod_p': 'list[int]',
    },
}
