"""P11: integer answers are computed exactly, never through floating point."""
from ..common import *
from ._effects import effect_of_api, chain_text

LEVEL = 'other'
EXPLANATION = ('Interprocedural provenance analysis with intervals: every public function is analysed with integer arguments of '
               'unbounded size (parameters that accept integers or reals are taken as integers); a binary operation, builtin or '
               'math-module function that turns an integer that may exceed 2**53 into a floating-point number is an effect of every public '
               'function that can reach it.  Operations whose documented result is real (density, tours in the plane, the knapsack '
               'heuristics) are exempt; four operations may use a logarithm to choose a search limit, and nothing else.')
RULES = ['rounds: an integer of unbounded size is converted to floating point (true division, real power, float(), math.sqrt, '
         'arithmetic with a floating-point constant) on the way to an integer result']
ASSUMPTIONS = ['integers below 2**53 in absolute value are exact in floating point (IEEE double)',
               'comparison of an integer with an infinity or a float is exact (true in Python)',
               'numbers in weights, distances and points are taken as integers; callers who pass floats get float arithmetic']
MINIMUM = {'entry_points': 300, 'exact_operations': 200, 'effects_attributed': 900}

# documented results that are real numbers
REAL = {
    'rosemary/graphs/graphs.py': 'Graph.density random_graph',
    'rosemary/combinatorics/optimization/knapsack.py': 'simulated_annealing branch_and_bound_depth_first',
    'rosemary/combinatorics/optimization/genetic_tsp.py': '*',
    'rosemary/combinatorics/optimization/tsp.py': '*',
}
# a logarithm chooses the limit of a search, not the answer
LIMITS = {
    'rosemary/number_theory/primes/sieves.py': 'primes_first_n',
    'rosemary/number_theory/arithmetic_functions/functions.py': 'primorial',
    'rosemary/number_theory/factorization/algorithms.py': 'cfrac',
    'rosemary/number_theory/factorization/factorization.py': 'factor',
    'rosemary/number_theory/primes/primality.py': 'miller_rabin_deterministic',
}


def listed(table, f):
    rel, q = f.fq.split(':')
    ns = table.get(rel, '')
    return ns == '*' or q in ns.split()


def run(ctx, fixture=False):
    res = Result()
    real, limits = ({'rosemary/things.py': 'ok_density'}, {'rosemary/things.py': 'ok_limit'}) if fixture else (REAL, LIMITS)
    plain = ctx.interp

    def exact(*a, **k):
        I = plain(*a, **k)
        I.ints_only = True
        return I
    ctx.interp = exact
    for f, effects in effect_of_api(ctx, fixture):
        res.count('entry_points')
        res.count('effects_attributed', len(effects))
        if listed(real, f):
            res.sample('documented real results', f.fq)
            continue
        bad = False
        for e, chain in sorted(effects.items(), key=str):
            if e[0] != 'float':
                continue
            if listed(limits, f) and (e[1].startswith('math.log') or e[1].startswith('arithmetic')):
                res.sample('logarithm as a search limit', '%s: %s' % (f.fq, e[1]))
                continue
            bad = True
            res.add(Finding('rounds', f, e[1], '%s in %s, of a value that can exceed 2**53' % (e[1], e[2]), e[3], chain_text(chain)))
        if not bad:
            res.count('exact_operations')
            res.sample('exact', f.fq, 400)
    return res


FIXTURE = 'p11'
EXPECT = [('rounds', q) for q in ('bad_sqrt', 'bad_power', 'bad_div', 'bad_helper', '_root', 'bad_float', 'bad_const', 'bad_limit', 'bad_loop', 'bad_math')]
