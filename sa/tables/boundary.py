"""Boundary classes of inputs and the answers the documentation (or the definition) gives for them.

CASES: module -> [(expression, answer)].  The free names of an expression are *classes* of inputs (CLASSES): `low` stands
for every integer below 2, `v` for every vertex label, `xs` for every list ... so an entry is a statement about all members of
the classes at once, not about a sample.  Answers: a Python value; INT(lo, hi), every integer of an interval; SIZE(kind, lo, hi),
a container of that many elements; KIND(kind), ANY, "some answer" (the call returns normally for some member of the class).
"""
from ..absval import Val, UNK, INT, NONE
from ..specs import L, T, D, S, U, INT_S, NUM


class INT_(object):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return 'an integer in [%s, %s]' % ('-oo' if self.lo is None else self.lo, 'oo' if self.hi is None else self.hi)


class SIZE(object):
    def __init__(self, kind, lo, hi=-1):
        self.kind, self.lo, self.hi = kind, lo, (lo if hi == -1 else hi)

    def __repr__(self):
        return 'a %s of %s..%s elements' % (self.kind, self.lo, 'any number of' if self.hi is None else self.hi)


class ANY_(object):
    def __repr__(self):
        return 'some answer'


ANY = ANY_()


def interval(lo, hi, par=None):
    return ('v', Val(i=(lo, hi, par)))


CLASSES = {
    # integers
    'z': interval(None, None), 'low': interval(None, 1), 'neg': interval(None, -1), 'nonpos': interval(None, 0),
    'nat': interval(0, None), 'pos': interval(1, None), 'two': interval(2, None), 'three': interval(3, None),
    'even': interval(4, None, 0), 'odd': interval(3, None, 1), 'minus': interval(None, -2), 'bit': interval(0, 1),
    # labels, elements
    'v': U, 'w': U, 'x': U,
    # containers of any size
    'xs': L(U), 'ints': L(INT_S), 'nats': L(interval(0, None)), 'points': L(T(NUM, NUM)), 'items': L(T(interval(0, None), interval(1, None))),
    'mods': L(T(INT_S, interval(2, None))), 'primes_': L(interval(2, None)), 'word': ('v', Val(s=True)), 'facs': L(T(interval(2, None), interval(1, None))),
    'poly': L(INT_S),
}

# every class is also analysed part by part: smaller classes (or single members) that together make up most of it
CLASSES.update({'_below': interval(None, -3), '_four': interval(4, None, 0), '_five': interval(5, None, 1), '_six': interval(6, None, 0), '_m2': interval(None, -2)})
PARTS = {
    'low': ['1', '0', '-1', '_m2'], 'neg': ['-1', '-2', '_below'], 'nonpos': ['0', '-1', '_m2'], 'nat': ['0', '1', 'two'], 'pos': ['1', '2', 'three'],
    'two': ['2', '3', '_four', '_five'], 'three': ['3', '_four', '_five'], 'even': ['4', '_six'], 'odd': ['3', '_five'], 'minus': ['-2', '_below'],
    'bit': ['0', '1'], 'z': ['0', '1', '-1', 'two', '_m2'], 'xs': ['[]', '[x]', '[x, w]'], 'ints': ['[]', '[z]', '[0]', '[1]', '[neg]'], 'nats': ['[]', '[0]', '[pos]'],
    'points': ['[]', '[(0, 0)]'], 'items': ['[]', '[(1, 1)]', '[(nat, pos)]'], 'mods': ['[]', '[(z, two)]', '[(0, 2)]'], 'primes_': ['[]', '[2]', '[two]'],
    'word': ["''", "'a'"], 'facs': ['[]', '[(2, 1)]', '[(two, pos)]'], 'poly': ['[]', '[0]', '[z]', '[z, z]'], 'v': ['0', "'a'"],
}

PRELUDE = '''
from rosemary.graphs.graphs import Graph


def nothing():
    return Graph()


def one(v):
    g = Graph()
    g.add_vertex(v)
    return g


def loose(xs):
    g = Graph()
    g.add_vertices(xs)
    return g


def edge():
    g = Graph()
    g.add_edge(1, 2)
    return g


def apart():
    g = Graph()
    g.add_vertex(1)
    g.add_vertex(2)
    return g
'''

CASES = {}


def cases(module, *pairs):
    CASES.setdefault(module, []).extend(pairs)


N = 'number_theory.'
cases(
    N + 'core',
    ('gcd(0, 0)', 0), ('gcd(0, pos)', INT_(1)), ('gcd(pos, 0)', INT_(1)), ('gcd(0, neg)', INT_(1)), ('gcd(two, neg)', INT_(0)), ('gcd_list([6])', 6), ('gcd_list([0])', 0), ('gcd_list([])', 0), ('gcd_list(ints)', INT_(0)), ('lcm_list([])', 1), ('lcm_list(ints)', INT_(0)), ('gcd_list([neg])', INT_(1)), ('lcm(z, z)', INT_(0)), ('gcd(z, z)', INT_(0)),
    ('ext_gcd(0, 0)', (1, 0, 0)), ('lcm(0, pos)', 0), ('lcm(pos, 0)', 0), ('lcm_list([6])', 6),
    ('power_mod(nat, 0, two)', 1), ('power_mod(nat, 0, 1)', 0), ('power_mod(nat, nat, 1)', 0), ('power_mod(nat, nat, two)', INT_(0)), ('power_mod(0, pos, two)', 0),
    ('inverse_mod(1, two)', 1), ('jacobi_symbol(z, 1)', 1), ('jacobi_symbol(0, odd)', 0), ('jacobi_symbol(1, odd)', 1), ('jacobi_symbol(z, odd)', INT_(-1, 1)),
    ('bit_count(0)', 0), ('bit_count(1)', 1), ('bit_count(nat)', INT_(0)), ('valuation(two, 1)', 0), ('valuation(two, pos)', INT_(0)), ('integer_log(two, 1)', 0), ('integer_log(two, pos)', INT_(0)),
    ('integer_nth_root(1, nat)', INT_(0)), ('integer_nth_root(two, 0)', 0), ('integer_nth_root(two, 1)', 1), ('integer_nth_root(two, nat)', INT_(0)),
    ('integer_sqrt(0)', 0), ('integer_sqrt(1)', 1), ('integer_sqrt(2)', 1), ('integer_sqrt(3)', 1), ('integer_sqrt(nat)', INT_(0)),
    ('chinese([(0, two)])', 0), ('chinese([(2, 3)])', 2), ('chinese_preconditioned([(2, 3)], crt_preconditioning_data([3]))', 2),
)
cases(
    N + 'classification',
    ('is_square(0)', 0), ('is_square(1)', 1), ('is_square(2)', False), ('is_square(neg)', False), ('is_power(1)', ANY),
    ('is_squarefree(1)', True), ('is_squarefree(2)', True), ('is_squarefree(4)', False), ('is_factorial(neg)', False), ('is_factorial(1)', True), ('is_factorial(2)', True), ('is_factorial(3)', False),
)
cases(
    N + 'arithmetic_functions.functions',
    ('euler_phi(1)', 1), ('moebius_mu(1)', 1), ('divisor_tau(1)', 1), ('divisor_sigma(1, nat)', 1), ('carmichael_lambda(1)', 1), ('euler_phi(pos)', INT_(1)), ('moebius_mu(pos)', INT_(-1, 1)), ('divisor_tau(pos)', INT_(1)),
    ('divisor_sigma(pos, nat)', INT_(1)), ('carmichael_lambda(pos)', INT_(1)), ('factorial(nat)', INT_(1)),
    ('euler_phi([])', 1), ('moebius_mu([])', 1), ('divisor_tau([])', 1), ('divisor_sigma([], nat)', 1), ('carmichael_lambda([])', 1),
    ('factorial(0)', 1), ('factorial(1)', 1), ('primorial(1)', 2), ('euler_phi([(2, 1)])', 1), ('divisor_tau([(two, 1)])', 2), ('moebius_mu([(two, 1)])', -1), ('moebius_mu([(two, two)])', 0), ('divisor_tau([(two, pos)])', INT_(2)),
    ('euler_phi(2)', 1), ('moebius_mu(2)', -1), ('divisor_tau(2)', 2), ('divisor_sigma(2)', 3), ('carmichael_lambda(2)', 1), ('carmichael_lambda([(2, 1)])', 1), ('carmichael_lambda([(2, 2)])', 2), ('carmichael_lambda([(2, 3)])', 2), ('primorial(2)', 6), ('factorial(2)', 2),
)
cases(N + 'arithmetic_functions.inverse_functions', ('euler_phi_inverse(1)', [1, 2]), ('euler_phi_inverse([])', [1, 2]), ('euler_phi_inverse(odd)', []), ('inverse_phi(1)', [1, 2]))
cases(
    N + 'arithmetic_functions.sieves',
    ('euler_phi_list(1)', [0, 1]), ('moebius_list(1)', [0, 1]), ('sigma_list(1, nat)', [0, 1]), ('tau_list(1)', [0, 1]), ('list(moebius_range(1, 1))', []),
    ('euler_phi_list(2)', [0, 1, 1]), ('moebius_list(2)', [0, 1, -1]), ('sigma_list(2)', [0, 1, 3]), ('tau_list(2)', [0, 1, 2]), ('list(moebius_range(1, 2))', [(1, 1)]), ('list(moebius_range(pos, 0))', []),
    ('len(moebius_list(pos))', INT_(2)), ('len(euler_phi_list(pos))', INT_(2)), ('len(tau_list(pos))', INT_(2)),
)
cases(
    N + 'arithmetic_functions.sums',
    ('euler_phi_sum(1)', 1), ('euler_phi_weighted_sum(1)', 1), ('moebius_sum(1)', 1), ('sigma_sum(1)', 1), ('euler_phi_sum(2)', 2), ('euler_phi_weighted_sum(2)', 3), ('moebius_sum(2)', 0), ('sigma_sum(2)', 4),
)
cases(N + 'arithmetic_progressions', ('has_three_term_ap([])', False), ('has_three_term_ap([z])', False), ('has_three_term_ap([1, 2])', False), ('longest_ap([1, 2])', ANY), ('longest_ap([1, 2, 4])', ANY))
cases(N + 'diophantine_equations.pell',
      ('pell_fundamental_solution(2)', (3, 2)), ('pell_fundamental_solution(2, -1)', (1, 1)), ('pell_fundamental_solution(3)', (2, 1)))
cases(
    N + 'factorization.factorization',
    ('factor(1)', []), ('factor(-1)', [(-1, 1)]), ('factor(2)', [(2, 1)]), ('divisors(1)', [1]), ('list(xdivisors(1))', [1]), ('prime_divisors(1)', []), ('unitary_divisors(1)', [1]), ('divisor_pairs(1)', [(1, 1)]), ('factor(minus)', SIZE('list', 2, None)), ('factor(two)', SIZE('list', 1, None)),
    ('factor_back([])', 1), ('factor_back([(2, 1)])', 2), ('factor_back([(z, 0)])', 1), ('divisors(2)', [1, 2]), ('divisors(factorization=[(2, 1)])', [1, 2]), ('prime_divisors(2)', [2]), ('divisor_pairs(2)', [(1, 2)]), ('unitary_divisors(2)', [1, 2]),
    ('divisors(factorization=[])', [1]), ('prime_divisors(factorization=[])', []), ('list(xdivisors(factorization=[]))', [1]), ('unitary_divisors(factorization=[])', [1]), ('divisor_pairs(factorization=[])', [(1, 1)]), ('divisors(factorization=[(two, pos)])', SIZE('list', 2, None)),
    ('list(factored_range(1, 1))', []), ('list(factored_range(1, 2))', [(1, [])]), ('list(factored_range(2, 3))', [(2, [(2, 1)])]), ('list(factored_range(pos, 0))', []),
)
cases(
    N + 'factorization.algorithms',
    ('trial_division(2)', 2), ('trial_division(even)', 2), ('smooth_factor(1, [2, 3])', ANY), ('smooth_factor(2, [2])', ANY), ('smooth_factor(-1, [-1, 2])', ANY),
    ('fermat(9)', 3), ('fermat(3)', 3), ('fermat(even)', 2), ('lehman(even)', ANY), ('fermat(odd)', ANY), ('pollard_rho(even)', ANY), ('pollard_rho_brent(even)', ANY), ('pollard_p_minus_1(even)', ANY),
)
cases(N + 'misc', ('bernoulli_list(0)', [1]), ('bernoulli_list(1)', SIZE('list', 2)), ('maximize_divisors(pos)', ANY), ('largest_divisor(two, 1)', ANY))
cases(
    N + 'primes.primality',
    ('is_prime(low)', False), ('is_prime(2)', True), ('is_prime(3)', True), ('is_prime(even)', False), ('is_prime(5)', True), ('is_prime(9)', False),
    ('is_probable_prime(low)', False), ('is_probable_prime(2)', True), ('is_probable_prime(3)', True), ('is_probable_prime(even)', False),
    ('next_prime(low)', 2), ('next_prime(2)', 3), ('next_prime(3)', 5), ('next_prime(two)', INT_(3)), ('next_probable_prime(low)', 2), ('next_probable_prime(2)', 3), ('next_probable_prime(two)', INT_(3)),
    ('lucas_lehmer(3)', True), ('miller_rabin_deterministic(3)', True), ('miller_rabin_deterministic(9)', False), ('random_prime(2, 3)', ANY), ('miller_rabin(even)', ANY), ('solovay_strassen(odd)', ANY), ('miller_rabin(3)', True), ('solovay_strassen(3)', True),
)
cases(
    N + 'primes.prime_counting',
    ('legendre(low)', 0), ('legendre(2)', 1), ('legendre(3)', 2), ('lehmer(low)', 0), ('lehmer(2)', 1), ('lehmer(4)', 2), ('meissel(low)', 0), ('meissel(2)', 1), ('meissel(4)', 2),
    ('lmo(low)', 0), ('lmo(2)', 1), ('lmo(4)', 2), ('lmo_bit(low)', 0), ('lmo_bit(2)', 1), ('lmo_bit(4)', 2), ('pi_table(0)', ([], [0])), ('pi_table(1)', ([], [0, 0])), ('pi_table(2)', ([2], [0, 0, 1])), ('prime_sum(1)', 0), ('prime_sum(2)', 2), ('prime_sum(3)', 5),
    ('prime_sum2(1)', 0), ('prime_sum2(2)', 2), ('prime_sum2(3)', 5), ('legendre(nat)', INT_(0)), ('prime_count(2)', ANY),
)
cases(
    N + 'primes.sieves',
    *[('%s(%s)' % (f, n), w) for f in ('primes', 'chartres', 'eratosthenes1', 'eratosthenes2', 'luo', 'pritchard')
      for n, w in (('low', []), ('1', []), ('2', [2]), ('3', [2, 3]), ('4', [2, 3]), ('5', [2, 3, 5]), ('6', [2, 3, 5]), ('two', SIZE('list', 1, None)))]
)
cases(
    N + 'primes.sieves',
    ('primes_first_n(0)', []), ('primes_first_n(1)', [2]), ('primes_first_n(2)', [2, 3]), ('list(prime_range(2, 3))', [2]), ('list(prime_range(2, 2))', []), ('list(prime_range(low, 2))', []), ('list(prime_range(low, 3))', [2]), ('list(prime_range(low, low))', []),
    ('list(prime_range(two, low))', []), ('list(prime_range(2))', []), ('list(prime_range(3))', [2]),
)
cases(
    N + 'zn_arithmetic',
    ('linear_congruence(0, 0, 2)', [0, 1]), ('linear_congruence(1, 0, 2)', [0]), ('linear_congruence(0, 1, two)', []), ('multiplicative_order(1, two)', 1), ('multiplicative_order(2, 3)', 2), ('is_primitive_root(1, 2)', True), ('is_primitive_root(2, 3)', True), ('is_primitive_root(0, 2)', ANY),
    ('primitive_root(2)', 1), ('primitive_root(3)', 2), ('primitive_root(4)', 3), ('sqrts_mod_p(0, 2)', [0]), ('sqrts_mod_p(1, 2)', [1]), ('sqrts_mod_p(0, odd)', [0]), ('sqrts_mod_p(2, 3)', []), ('sqrts_mod_n(0, 2)', [0]), ('sqrts_mod_n(1, 2)', [1]), ('nth_roots_of_unity_mod_p(1, 2)', [1]), ('nth_roots_of_minus1_mod_p(1, 2)', [1]),
    ('nth_roots_of_minus1_mod_p(1, 3)', [2]), ('nth_roots_of_unity_mod_p(1, 3)', [1]), ('fibonacci_primitive_roots(5)', [3]), ('quadratic_congruence([1, 0, 0], 2)', [0]), ('discrete_log(2, 2, 3)', ANY), ('discrete_log(2, 4, 5)', ANY), ('quadratic_congruence([1, 1, 1], 2)', []),
)
cases(
    'algebra.polynomials.algorithms',
    ('list_add([], [])', []), ('list_add([z], [])', SIZE('list', 1)), ('list_add([], [z])', SIZE('list', 1)), ('list_subtract([], [])', []), ('list_subtract([1], [1])', [0]), ('list_subtract([], [1])', [-1]), ('list_subtract([1], [])', [1]), ('mul_classical([], poly)', []), ('mul_classical(poly, [])', []),
    ('mul_classical([2], [3])', [6]), ('mul_karatsuba([], poly)', []), ('mul_karatsuba(poly, [])', []), ('mul_karatsuba([2], [3])', [6]), ('power_jcp([2], 0)', [1]), ('power_jcp([2], 1)', [2]), ('power_jcp([0], 0)', [1]), ('power_jcp([], 0)', [1]), ('power_jcp([0], pos)', [0]), ('list_add([], poly)', SIZE('list', 0, None)), ('mul_classical([0], [1, 1])', SIZE('list', 2)),
)
cases(
    'algebra.polynomials.polynomials',
    ('Polynomial([]) == Polynomial([])', True), ('Polynomial([1]) == Polynomial([1])', True), ('Polynomial([1]) == Polynomial([2])', False), ('Polynomial([z]) + Polynomial([z])', ANY), ('Polynomial([]) + Polynomial(poly)', ANY), ('Polynomial(poly) * Polynomial([])', ANY),
    ('Polynomial(poly) * 0', ANY), ('Polynomial(poly) - Polynomial(poly)', ANY), ('Polynomial([0])(z)', 0), ('Polynomial([1])(z)', 1), ('repr(Polynomial([0]))', ANY), ('repr(Polynomial([z]))', ANY), ('Polynomial(poly)**0', ANY), ('Polynomial([2])**1', ANY), ('Polynomial([2]).coefficients()', [2]), ('(Polynomial([0])**0).coefficients()', [1]), ('(Polynomial([])**0).coefficients()', [1]), ('(Polynomial([0])**pos).coefficients()', [0]), ('Polynomial([0]).gcd(Polynomial([0])).coefficients()', [0]), ('Polynomial([0]).gcd(Polynomial([5])).coefficients()', [5]), ('Polynomial([5]).gcd(Polynomial([0])).coefficients()', [5]), ('Polynomial([]).coefficients()', [0]), ('Polynomial([0]).content()', 0), ('Polynomial([0]).primitive_part().coefficients()', [0]), ('Polynomial([5]).primitive_part().coefficients()', [1]),
    ('Polynomial([1])[0]', 1),
    ('Polynomial([1, 1]).quo_rem(Polynomial([1]))', ANY), ('Polynomial([1]).quo_rem(Polynomial([1, 1]))', ANY), ('Polynomial([1]).gcd(Polynomial([1]))', ANY),
)
cases(
    'algebra.power_series.power_series',
    ('ps_mult_classical([z], [z])', SIZE('list', 1)), ('ps_mult_karatsuba([z], [z])', SIZE('list', 1)), ('ps_invert([1])', SIZE('list', 1)), ('ps_power([1], 0)', [1]), ('ps_power([1], 1)', [1]), ('ps_power([1, 0], 0)', [1, 0]), ('eta_series(1)', ANY), ('delta_series(1)', ANY),
)
cases(
    'algebra.matrices.matrices',
    ('Matrix(1).determinant()', 0), ('Matrix([[5]]).determinant()', 5), ('Matrix([[1, 0], [0, 1]]).determinant()', 1), ('repr(Matrix(1))', ANY), ('(Matrix(1) + Matrix(1))[0, 0]', 0), ('(Matrix(1) * Matrix(1))[0, 0]', 0), ('Matrix(2).delete_row(0)', ANY), ('Matrix(2).delete_col(0)', ANY), ('(2*Matrix(1))[0, 0]', 0),
    ('Matrix([[5]])[0, 0]', 5), ('(-Matrix([[5]]))[0, 0]', -5), ('(Matrix([[5]]) - Matrix([[5]]))[0, 0]', 0), ('(Matrix([[2]]) * Matrix([[3]]))[0, 0]', 6), ('Matrix(1, 2)[0, 1]', 0), ('(Matrix(pos)[0, 0])', 0), ('Matrix(pos, pos)[0, 0]', 0),
)
C = 'combinatorics.'
cases(
    C + 'enumeration.enumeration',
    ('bell_number(0)', 1), ('bell_number(1)', 1), ('bell_number(2)', 2), ('bell_number(nat)', INT_(0)), ('binomial(nat, 0)', 1), ('binomial(0, pos)', 0), ('binomial(1, 1)', 1), ('binomial(1, two)', 0), ('binomial(two, 2)', INT_(1)), ('bipartitions(1, 1)', ANY), ('bipartitions(0, 0)', ANY),
    ('multinomial(0, [0])', 1), ('multinomial(1, [1])', 1), ('multinomial(nat, [nat])', INT_(0)), ('necklaces(1, 1)', 1), ('necklaces(2, 1)', 1), ('necklaces(1, 2)', 2), ('necklaces(two, 1)', INT_(1)), ('number_of_domino_tilings(1, 1)', 0), ('number_of_domino_tilings(1, 2)', 1), ('number_of_domino_tilings(2, 1)', 1), ('number_of_domino_tilings(odd, odd)', 0),
    ('partition_list(0)', [1]), ('partition_list(1)', [1, 1]), ('partition_list(2)', [1, 1, 2]), ('partition_number(0)', 1), ('partition_number(1)', 1), ('partition_number(2)', 2), ('rth_power_partition_number(1, 0)', 1), ('rth_power_partition_number(1, 1)', 1),
    ('stirling_number2(0, 0)', 1), ('stirling_number2(pos, 0)', 0), ('stirling_number2(0, pos)', 0), ('stirling_number2(1, 1)', 1), ('stirling_number2(1, two)', 0), ('stirling_number2(2, 1)', 1), ('stirling_number2(2, 2)', 1), ('triomino_tilings(1, 3)', ANY), ('triomino_tilings(3, 1)', ANY), ('triomino_tilings(1, 1)', 0), ('partition_number(nat)', INT_(0)),
)
cases(C + 'generation.combinations', ('list(combinations(nat, 0))', SIZE('list', 1)), ('list(combinations(1, 1))', SIZE('list', 1)), ('list(combinations(2, 1))', SIZE('list', 2)))
cases(C + 'generation.partitions', ('list(integer_partitions(0))', [[]]), ('list(integer_partitions(1))', [[1]]), ('list(integer_partitions(2))', [[2], [1, 1]]), ('list(integer_partitions(3, num_parts=1))', [[3]]), ('list(integer_partitions(1, num_parts=1))', [[1]]), ('list(integer_partitions(1, distinct=True))', [[1]]),
      ('list(integer_partitions(pos))', SIZE('list', 1, None)), ('list(integer_partitions(pos, parts=[]))', []))
cases(
    C + 'generation.permutations',
    ('list(knuth_algorithm_l([]))', [[]]), ('list(knuth_algorithm_l([x]))', SIZE('list', 1)), ('list(knuth_algorithm_l([1, 2]))', [[1, 2], [2, 1]]), ('list(knuth_algorithm_l([1, 1]))', [[1, 1]]), ('list(knuth_algorithm_l_variations([]))', [[]]), ('list(knuth_algorithm_l_variations([1]))', [[], [1]]), ('list(knuth_algorithm_l_rvariations([x], 1))', SIZE('list', 1)),
    ('list(phillips([]))', [[]]), ('list(phillips([x]))', SIZE('list', 1)), ('list(phillips([1, 2]))', [[1, 2], [2, 1]]), ('list(phillips([1, 1]))', [[1, 1]]), ('list(phillips([1, 1, 1]))', [[1, 1, 1]]), ('list(phillips(xs))', SIZE('list', 1, None)), ('list(knuth_algorithm_l(xs))', SIZE('list', 1, None)),
    ('list(knuth_algorithm_l_rvariations([1, 2], 1))', [[1], [2]]),
)
cases(C + 'generation.tuples', ('list(n_tuples(1, [1]))', ANY), ('list(n_tuples(1, [2]))', SIZE('list', 2)), ('list(n_tuples(pos, 1))', ANY), ('list(n_tuples(1, 2))', SIZE('list', 2)))
cases(
    C + 'optimization.exact_cover',
    ('list(algorithmx([], {}))', ANY), ('list(algorithmx([1], [[1]]))', ANY), ('list(algorithm_dlx([1], [[1]]))', ANY), ('list(ExactCoverBinary([1]).solutions())', ANY), ('ExactCoverBinary([1]).number_of_solutions()', 1), ('ExactCoverBinary([pos]).number_of_solutions()', INT_(0)), ('langford_ints(1)', ANY), ('latin_square_ints(1)', ANY),
)
cases(
    C + 'optimization.knapsack',
    ('depth_first([], nat)', ANY), ('depth_first([(1, 2)], 1)', ANY), ('depth_first(items, 0)', ANY), ('dynamic_programming([], nat)', ANY), ('dynamic_programming([(1, 2)], 1)', ANY), ('dynamic_programming(items, 0)', ANY), ('branch_and_bound_depth_first([], nat)', ANY), ('branch_and_bound_depth_first([(1, 2)], 1)', ANY), ('branch_and_bound_depth_first(items, 0)', ANY),
    ('simulated_annealing([(1, 2)], 5)', ANY),
)
cases(
    C + 'optimization.tsp',
    ('euclidean_distance_matrix([])', []), ('euclidean_distance_matrix([(0, 0)])', SIZE('list', 1)), ('euclidean_distance_matrix(points)', SIZE('list', 0, None)), ('branch_and_bound([(0, 0), (1, 1)])', ANY), ('depth_first([(0, 0), (1, 1)])', ANY), ('farthest_insertion([(0, 0), (1, 1)])', ANY), ('random_two_opt([0, 1, 2, 3])', SIZE('list', 4)), ('steepest_ascent_two_opt([(0, 0), (1, 1), (0, 1), (1, 0)])', ANY), ('two_opt([(0, 0), (1, 1), (0, 1), (1, 0)])', ANY),
)
cases(
    'data_structures.bit_sieve',
    ('BITSieve(1).entries()', ANY), ('BITSieve(1).partial_sum(0)', 0), ('BITSieve(2).partial_sum(1)', ANY), ('BITSieve(pos).partial_sum(0)', 0), ('BITSieveArray(1).entries()', ANY), ('BITSieveArray(2).partial_sum(1)', ANY), ('BITSieveArray(pos).partial_sum(0)', 0), ('BITSieve(pos).mark_multiples(two)', ANY), ('BITSieveArray(pos).mark_multiples(two)', ANY),
)
cases(
    'data_structures.heaps',
    ('len(LeftistHeap([]))', 0), ('len(LeftistHeap([x]))', 1), ('len(LeftistHeap(xs))', INT_(0)), ('list(LeftistHeap([]))', []), ('LeftistHeap([]).delete_min()', None), ('LeftistHeap([3]).find_min()', 3), ('LeftistHeap([3]).delete_min()', 3), ('repr(LeftistHeap([]))', ANY), ('repr(LeftistHeap([x]))', ANY), ('list(LeftistHeap([x]))', SIZE('list', 1)),
    ('LeftistHeap([]).insert(x)', None), ('grow_leftist(x)', 1), ('empty_leftist(x)', 0), ('meld(LeftistHeap([]), LeftistHeap([]))', 0), ('meld(LeftistHeap([1]), LeftistHeap([]))', 1), ('meld(LeftistHeap([]), LeftistHeap([1]))', 1), ('meld(LeftistHeap([1]), LeftistHeap([2]))', 2), ('emptied_then(3)', 3),
    ('PairingHeap().delete_min()', None), ('PairingHeap().insert(1, 2)', None), ('one_pairing().key', 1), ('one_pairing().value', 2), ('two_pairing()', None), ('PairingHeap().insert_values([])', ANY), ('list(PairingHeap().list_elements())', ANY),
)
cases('data_structures.unionfind', ('UnionFind([])', ANY), ('UnionFind([1]).find(1)', 1), ('NamedUnionFind([1]).find(1)', 1), ('NamedUnionFind([])', ANY), ('UnionFind(xs)', ANY), ('UnionFind([1]).union(1, 1)', None), ('NamedUnionFind([1]).union(1, 1, 1)', ANY))
cases('graphs.algorithms.degree_sequences',
      *[('%s(%s)' % (f, a), w) for f in ('is_graphic', 'is_graphic_erdos_gallai') for a, w in
        (('[]', True), ('[0]', True), ('[pos]', False), ('[1, 1]', True), ('[2]', False), ('[0, 0]', True), ('[1, 0]', False), ('[neg]', ANY))])
G = 'graphs.'
cases(
    G + 'graphs',
    ('nothing().num_vertices()', 0), ('nothing().num_edges()', 0), ('one(v).num_vertices()', 1), ('one(v).num_edges()', 0), ('edge().num_vertices()', 2), ('edge().num_edges()', 1), ('loose(xs).num_edges()', 0), ('loose([]).num_vertices()', 0), ('loose(xs).num_vertices()', INT_(0)), ('one(v).degree(v)', INT_(0)), ('edge().degree(1)', 1),
    ('nothing().vertices()', []), ('nothing().vertex_set()', set()), ('one(1).vertices()', [1]), ('nothing().edges()', []), ('nothing().edge_set()', set()), ('one(v).edges()', []), ('loose(xs).edges()', []), ('loose(xs).edge_set()', set()), ('loose(xs).edges(weights=True)', []), ('nothing().complement().num_vertices()', 0), ('nothing().copy().num_vertices()', 0), ('one(v).copy().num_edges()', 0), ('one(v).copy().num_vertices()', INT_(0)),
    ('one(v).complement().num_edges()', 0), ('edge().complement().num_edges()', 0), ('one(v).adjacency_matrix()', ANY), ('one(v).degree_matrix()', ANY), ('one(v).laplacian_matrix()', ANY), ('nothing().total_degree()', 0), ('one(v).total_degree()', 0), ('loose(xs).total_degree()', 0), ('edge().total_degree()', 2), ('one(v).leaves()', set()), ('nothing().leaves()', set()), ('loose(xs).leaves()', set()), ('one(v).maximum_degree()', 0), ('one(v).minimum_degree()', 0),
    ('one(1).maximum_degree_vertex()', 1), ('one(1).minimum_degree_vertex()', 1), ('one(1).neighbors(1)', set()), ('edge().neighbors(1)', {2}), ('one(1).closed_neighborhood(1)', {1}), ('edge().density()', 1.0), ('nothing().induced_subgraph([]).num_vertices()', 0), ('edge().induced_subgraph([1]).num_edges()', 0), ('edge().induced_subgraph([1]).num_vertices()', 1), ('loose(xs).induced_subgraph([]).num_vertices()', 0),
    ('repr(nothing())', ANY), ('repr(one(v))', ANY), ('list(nothing())', []), ('complete_graph(0).num_vertices()', 0), ('complete_graph(2).num_edges()', 1), ('coprime_pairs_graph(2)', ANY), ('odd_graph(2).num_vertices()', 3), ('random_graph(0, 0.5).num_vertices()', 0), ('random_graph(1, 0.5).num_vertices()', 1), ('random_graph(1, 0.5).num_edges()', 0), ('nothing().add_edges([])', None), ('nothing().add_vertices([])', None),
    ('nothing().delete_vertices([])', None), ('loose(xs).delete_vertices([])', None), ('coprime_pairs_graph(1).num_edges()', 0),
)
A = G + 'algorithms.'
cases(
    A + 'cliques',
    *[('list(%s(nothing()))' % f, ANY) for f in ('bron_kerbosch', 'bron_kerbosch_binary', 'tomita', 'maximal_cliques')],
    *[('%s(nothing())' % f, (0, [])) for f in ('maximum_clique', 'ostergard', 'pardalos', 'pardalos_binary', 'ostergard_binary')],
    *[('%s(one(1))' % f, (1, [1])) for f in ('maximum_clique', 'ostergard', 'pardalos', 'pardalos_binary', 'ostergard_binary')],
    *[('list(%s(one(1)))' % f, SIZE('list', 1)) for f in ('bron_kerbosch', 'bron_kerbosch_binary', 'tomita', 'maximal_cliques')],
    *[('list(%s(loose(xs)))' % f, SIZE('list', 0, None)) for f in ('bron_kerbosch', 'bron_kerbosch_binary', 'tomita', 'maximal_cliques')],
    ('maximum_weight_clique(nothing(), {})', ANY), ('maximum_weight_clique(one(1), {1: 1})', ANY), ('maximum_weight_clique(one(1))', ANY), ('maximum_weight_clique(nothing())', ANY)
)
cases(
    A + 'coloring',
    *[c for f in ('branch_and_bound', 'dsatur', 'exact_coloring', 'greedy_sequential', 'korman', 'maxis') for c in
      (('%s(nothing())' % f, (0, [])), ('%s(nothing(), classes=False)' % f, (0, {})), ('%s(one(1))' % f, (1, [[1]])), ('%s(apart())' % f, ANY), ('%s(edge())' % f, ANY), ('%s(one(1), classes=False)' % f, ANY))]
)
cases(A + 'connectivity', ('connected_component(one(1), 1)', [1]), ('list(connected_components(nothing()))', []), ('is_connected(one(v))', True), ('is_connected(edge())', True), ('is_connected(apart())', False), ('list(connected_components(apart()))', ANY), ('list(connected_components(one(v)))', SIZE('list', 1)))
cases(
    A + 'hamiltonian_paths',
    ('list(hamiltonian_paths(one(1)))', ANY), ('list(hamiltonian_paths(edge()))', ANY), ('number_of_hamiltonian_paths(one(1))', ANY), ('number_of_hamiltonian_paths(edge())', ANY), ('number_of_hamiltonian_paths5(edge())', ANY), ('number_of_hamiltonian_paths_bits(edge())', ANY), ('list(hamiltonian_paths_con(edge()))', ANY),
    ('number_of_hamiltonian_paths5_con(edge())', ANY), ('number_of_hamiltonian_paths_bits_con(edge())', ANY), ('is_connected2(one(1), {1})', True),
)
cases(
    A + 'independent_sets',
    *[c for f in ('branch_and_bound', 'maximum_independent_set') for c in (('%s(nothing())' % f, (0, [])), ('%s(one(1))' % f, (1, [1])), ('%s(edge())' % f, ANY), ('%s(apart())' % f, ANY))],
    *[c for f in ('culberson', 'greedy') for c in (('%s(nothing())' % f, (0, [])), ('%s(one(1))' % f, (1, [1])), ('%s(one(v))' % f, (1, SIZE('list', 1))), ('%s(edge())' % f, ANY), ('%s(apart())' % f, (2, SIZE('list', 2))), ('%s(loose(xs))' % f, ANY))],
    ('list(maximal_independent_sets(one(1)))', SIZE('list', 1)), ('list(maximal_independent_sets(nothing()))', ANY)
)
cases(
    A + 'paths',
    *[c for f in ('bellman_ford', 'dijkstra', 'dijkstra_buckets', 'dijkstra_pairing_heap') for c in
      (('%s(one(1), 1)' % f, ({1: 0}, {1: None})), ('%s(apart(), 1)' % f, ANY), ('%s(edge(), 1)' % f, ({1: 0, 2: 1}, {1: None, 2: 1})), ('%s(one(v), v)' % f, (SIZE('dict', 1), SIZE('dict', 1))), ('%s(loose(xs), xs[0])' % f, (SIZE('dict', 1, None), SIZE('dict', 1, None))))],
    ('dijkstra_bidirectional(one(v), v, v)', (0, SIZE('list', 1))), ('dijkstra_bidirectional(apart(), 1, 2)', ANY), ('dijkstra_bidirectional(edge(), 1, 2)', (1, [1, 2])),
    ('floyd_warshall(nothing())', ({}, {})), ('floyd_warshall(one(1))', ANY), ('list(dijkstra_iterator(one(1), 1))', [(1, 0, [1])]), ('floyd_warshall(apart())', ANY), ('list(dijkstra_iterator(loose(xs), xs[0]))', SIZE('list', 1, None))
)
cases(
    A + 'spanning_trees',
    *[c for f in ('prim', 'kruskal', 'cheriton_tarjan') for c in (('%s(nothing())' % f, (0, [])), ('%s(one(v))' % f, (0, [])), ('%s(loose(xs))' % f, (0, [])), ('%s(edge())' % f, (1, [(1, 2)])))],
    ('prim(nothing(), edge_list=False)', (0, {})), ('prim(one(1), edge_list=False)', (0, {1: None})), ('list(gabow(edge()))', ANY), ('list(gabow(edge(), 1))', ANY)
)
cases(
    A + 'steiner_trees',
    ('distance_network_heuristic(one(1), [1])', (0, [])), ('distance_network_heuristic(apart(), [1])', (0, [])), ('minimum_cost_paths_heuristic(one(1), [1])', (0, [])), ('minimum_cost_paths_heuristic(edge(), [1])', (0, [])), ('minimum_cost_paths_heuristic(edge(), [1, 2])', (1, [(1, 2)])), ('distance_network_heuristic(edge(), [1, 2])', (1, [(1, 2)])),
    ('distance_network_heuristic(loose(xs), [])', ANY), ('minimum_cost_paths_heuristic(loose(xs), [])', ANY),
)
cases(A + 'traversal', ('list(breadth_first_search(one(1), 1))', [1]), ('list(depth_first_search(one(1), 1))', [1]), ('breadth_first_search_tree(one(1), 1)', ANY), ('depth_first_search_tree(one(1), 1)', ANY), ('list(breadth_first_search(one(v), v))', SIZE('list', 1)), ('list(depth_first_search(one(v), v))', SIZE('list', 1)),
      ('list(breadth_first_search(edge(), 1, 0))', ANY))
cases(C + 'recreational.alphametics', ('solve(["A"], ["A"])', ANY))

# helpers used by expressions of a module
HELPERS = {
    'data_structures.heaps': '''

def grow_leftist(x):
    h = LeftistHeap([])
    h.insert(x)
    return len(h)


def empty_leftist(x):
    h = LeftistHeap([x])
    h.delete_min()
    return len(h)


def emptied_then(x):
    h = LeftistHeap([7])
    h.delete_min()
    h.insert(x)
    return h.find_min()


def meld(a, b):
    a.merge(b)
    return len(a)


def one_pairing():
    h = PairingHeap()
    h.insert(1, 2)
    return h.delete_min()


def two_pairing():
    h = PairingHeap()
    h.insert(1, 2)
    h.delete_min()
    return h.delete_min()
''',
}
