"""P05: randomness is confined, and comes from one reproducible source."""
from ..common import *
from ._effects import effect_of_api, module_effects, chain_text

LEVEL = 'other'
EXPLANATION = ('Context-sensitive effect analysis: the set of standard-library and builtin operations each public function can '
               'reach (through helpers, closures, methods, callbacks passed to sort/map, and generators) is computed on the '
               'abstract interpretation of the whole library, so that a call that a constant argument disables does not count.  '
               'Each public function outside the list of randomised operations must reach no random draw; no function may '
               'reach a re-seeding, a private generator, or any other source of entropy.')
RULES = ['random-draw: an operation documented as deterministic reaches the random module',
         'reseed: seeds, saves or restores the state of the shared generator',
         'private-generator: draws from a generator object other than the shared one',
         'entropy: reads the clock, the operating system\'s entropy, object identities or salted hashes']
ASSUMPTIONS = ['iteration order of sets and dictionaries is a function of their contents (true for integers; for strings it depends on PYTHONHASHSEED)',
               'functions passed in by the caller draw no random numbers themselves']
MINIMUM = {'entry_points': 340, 'deterministic_operations': 290, 'effects_attributed': 1000}

# operations the documentation describes as randomised, or that are built on factoring, primality proofs for large
# numbers or the search for primitive roots
RANDOMISED = {
    'rosemary/combinatorics/enumeration/enumeration.py': 'necklaces',
    'rosemary/combinatorics/optimization/genetic_tsp.py': 'TravelingSalesman.mgkrec TravelingSalesman.select TravelingSalesman.solve',
    'rosemary/combinatorics/optimization/knapsack.py': 'simulated_annealing',
    'rosemary/combinatorics/optimization/tsp.py': 'random_two_opt simulated_annealing_two_opt',
    'rosemary/graphs/algorithms/coloring.py': 'maxis',
    'rosemary/graphs/algorithms/hamiltonian_paths.py': 'number_of_hamiltonian_paths_bits number_of_hamiltonian_paths_bits_con',
    'rosemary/graphs/algorithms/independent_sets.py': 'greedy',
    'rosemary/graphs/algorithms/spanning_trees.py': 'cheriton_tarjan',
    'rosemary/graphs/graphs.py': 'random_graph',
    'rosemary/number_theory/arithmetic_functions/functions.py': 'carmichael_lambda divisor_sigma divisor_tau euler_phi moebius_mu',
    'rosemary/number_theory/arithmetic_functions/inverse_functions.py': 'euler_phi_inverse inverse_phi',
    'rosemary/number_theory/classification.py': 'is_squarefree',
    'rosemary/number_theory/diophantine_equations/pell.py': 'pell_minimal_positive_solutions pell_solution_generator',
    'rosemary/number_theory/factorization/algorithms.py': 'pollard_rho pollard_rho_brent',
    'rosemary/number_theory/factorization/factorization.py': 'divisor_pairs divisors factor prime_divisors unitary_divisors xdivisors',
    'rosemary/number_theory/misc.py': 'largest_divisor',
    'rosemary/number_theory/primes/primality.py': 'miller_rabin random_prime solovay_strassen',
    'rosemary/number_theory/zn_arithmetic.py': (
        'fibonacci_primitive_roots is_primitive_root multiplicative_order nth_roots_of_minus1_mod_p '
        'nth_roots_of_unity_mod_p primitive_root quadratic_congruence sqrts_mod_n sqrts_mod_p '),
}
DRAWS = {'random', 'randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle', 'uniform', 'gauss', 'getrandbits', 'betavariate',
         'expovariate', 'normalvariate', 'triangular', 'randbytes', 'binomialvariate', 'lognormvariate', 'vonmisesvariate',
         'gammavariate', 'paretovariate', 'weibullvariate'}
SEEDS = {'seed', 'setstate', 'getstate'}
ENTROPY_MODS = {'time', 'os', 'secrets', 'uuid', 'datetime', 'platform', 'socket', 'threading', 'multiprocessing', 'numpy.random', 'getpass', 'resource', 'gc'}
ENTROPY_BUILTINS = {'id', 'hash'}


def classify(e):
    if e[0] == 'ext':
        mod, attr = e[1], e[2]
        if mod == 'random':
            if attr in SEEDS:
                return 'reseed', 'random.%s' % attr
            if attr in DRAWS:
                return 'random-draw', 'random.%s' % attr
            return 'private-generator', 'random.%s' % attr
        if mod.split('.')[0] == 'random':
            return 'private-generator', '%s.%s' % (mod, attr)
        if mod in ENTROPY_MODS or mod.split('.')[0] in ENTROPY_MODS:
            return 'entropy', '%s.%s' % (mod, attr)
    elif e[0] == 'builtin' and e[1] in ENTROPY_BUILTINS:
        return 'entropy', e[1]
    return None


def run(ctx, fixture=False):
    res = Result()
    names = ['rosemary/things.py:ok_random'] if fixture else ['%s:%s' % (rel, q) for rel, ns in RANDOMISED.items() for q in ns.split()]
    allowed = {ctx.find(x) for x in names}
    for f, effects in effect_of_api(ctx, fixture):
        res.count('entry_points')
        res.count('effects_attributed', len(effects))
        draws = False
        for e, chain in sorted(effects.items(), key=str):
            c = classify(e)
            if c is None:
                continue
            rule, what = c
            if rule == 'random-draw':
                draws = True
                if f in allowed:
                    continue
            site = chain[-1][0]
            res.add(Finding(rule, f, what, 'reaches %s (in %s)' % (what, site.fq), chain[-1][1].lineno, chain_text(chain)))
        if f in allowed:
            res.count('randomised_operations')
            res.sample('randomised', f.fq)
        elif not draws:
            res.count('deterministic_operations')
            res.sample('deterministic', f.fq, 400)
    for m, e, where, chain in module_effects(ctx):
        res.count('module_level_effects')
        c = classify(e)
        if c:
            res.add(Finding(c[0], '%s:<module>' % m.relpath, c[1], 'importing the module reaches %s' % c[1], where.lineno, chain_text(chain)))
    return res


FIXTURE = 'p05'
EXPECT = [('random-draw', '_draw'), ('random-draw', '_maybe'), ('random-draw', 'bad_direct'), ('random-draw', 'bad_nested'), ('random-draw', 'bad_gen'), ('random-draw', 'bad_key'),
          ('reseed', 'bad_seed'), ('reseed', '<module>'), ('private-generator', 'bad_private'), ('entropy', 'bad_clock'), ('entropy', 'bad_id')]
