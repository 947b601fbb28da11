"""P08: arguments outside the documented domain are rejected with the documented exception; boundary values are accepted."""
from ..common import *

LEVEL = 'other'
EXPLANATION = ('Interval/parity/kind abstract interpretation, calls analysed in line.  Each documented restriction is turned '
               'into an abstract call whose restricted argument ranges over every value outside the domain (an interval, a parity class, a '
               'vertex known not to be in the graph, a missing argument, operands of different dimensions) and whose other '
               'arguments range over everything; the analysis must find the normal exit (and every yield) of the function '
               'unreachable and the documented exception raised.  For each restriction the boundary values inside the domain are analysed too: '
               'their normal exit must be reachable.')
RULES = ['accepted: a call outside the documented domain may return (or yield) normally',
         'wrong-exception: a call outside the documented domain never raises the documented exception',
         'rejected: every call with a boundary value inside the documented domain raises']
ASSUMPTIONS = ['the other arguments have the documented types', 'reading the vertex set of a graph does not depend on its contents']
MINIMUM = {'restrictions': 90, 'boundary_values': 65}

C = 'rosemary/number_theory/core.py:'
CL = 'rosemary/number_theory/classification.py:'
AF = 'rosemary/number_theory/arithmetic_functions/functions.py:'
AS = 'rosemary/number_theory/arithmetic_functions/sieves.py:'
AU = 'rosemary/number_theory/arithmetic_functions/sums.py:'
AI = 'rosemary/number_theory/arithmetic_functions/inverse_functions.py:'
ZN = 'rosemary/number_theory/zn_arithmetic.py:'
FA = 'rosemary/number_theory/factorization/factorization.py:'
PE = 'rosemary/number_theory/diophantine_equations/pell.py:'
PA = 'rosemary/graphs/algorithms/paths.py:'
EN = 'rosemary/combinatorics/enumeration/enumeration.py:'
CQ = 'rosemary/graphs/algorithms/cliques.py:'


def lt(k):
    return ('v', mkint(None, k - 1))


def ge(k):
    return ('v', mkint(k, None))


def k_(*vals):
    return ('v', joins([vconst(v) for v in vals]))


EVEN = ('v', mkint(None, None, 0))
ODD = ('v', mkint(None, None, 1))
ALIEN = ('v', UNK.with_(t=frozenset(['alien'])))
ABSENT = ('v', NONE)
V = 'ValueError'
_NEG = ('o', 'tuple', None, (lt(0), specs.INT_S), None, None)
NEGFAC = specs.UNION(*[('o', 'list', None, (_NEG,) + (specs.T(specs.INT_S, specs.INT_S),)*_n, None, None) for _n in range(4)])
NEGPOW = ('o', 'list', None, None, ('o', 'tuple', None, (k_(-1), k_(1)), None, None), None)
STRING = ('v', STR)
FLOATS = ('v', FLOAT)

# function, argument outside the domain, exception
REJECT = [
    (C + 'power_mod', {'a': lt(0)}, V), (C + 'power_mod', {'k': lt(0)}, V), (C + 'power_mod', {'m': lt(1)}, V),
    (C + 'inverse_mod', {'m': lt(2)}, V), (C + 'integer_log', {'b': lt(2)}, V), (C + 'integer_log', {'n': lt(1)}, V),
    (C + 'integer_nth_root', {'m': lt(0)}, V), (C + 'integer_nth_root', {'n': lt(1)}, V), (C + 'integer_sqrt', {'n': lt(0)}, V),
    (C + 'jacobi_symbol', {'m': EVEN}, V),
    (CL + 'is_power', {'n': NEGPOW}, V), (CL + 'is_power', {'n': NEGPOW, 'k': ABSENT}, V), (CL + 'is_power', {'k': lt(1)}, V), (CL + 'is_power', {'n': lt(1)}, V),
    (CL + 'is_squarefree', {'n': lt(1)}, V), (CL + 'is_squarefree', {'n': NEGFAC}, V), (CL + 'is_squarefree', {'n': STRING}, V),
    (ZN + 'is_primitive_root', {'n': lt(2)}, V), (ZN + 'sqrts_mod_p', {'p': lt(2)}, V), (ZN + 'linear_congruence', {'n': lt(2)}, V),
    (AF + 'carmichael_lambda', {'n': lt(1)}, V), (AF + 'carmichael_lambda', {'n': NEGFAC}, V), (AF + 'carmichael_lambda', {'n': STRING}, V),
    (AF + 'factorial', {'n': lt(0)}, V), (AF + 'primorial', {'n': lt(1)}, V), (AF + 'divisor_sigma', {'k': lt(0)}, V),
    (AS + 'sigma_list', {'k': lt(0)}, V),
    (AI + 'euler_phi_inverse', {'n': lt(1)}, V), (AI + 'euler_phi_inverse', {'n': NEGFAC}, V), (AI + 'euler_phi_inverse', {'n': STRING}, V),
    (FA + 'factor', {'n': k_(0)}, V), (FA + 'factor_back', {'fac': specs.INT_S}, V), (FA + 'factor_back', {'fac': STRING}, V),
    (PE + 'pell_fundamental_solution', {'D': lt(1)}, V), (PE + 'pell_fundamental_solution', {'n': ge(2)}, V),
    (PE + 'pell_fundamental_solution', {'n': lt(-1)}, V), (PE + 'pell_fundamental_solution', {'n': k_(0)}, V),
    (PE + 'PellEquation.__init__', {'D': lt(1)}, V), (PE + 'pell_small', {'D': lt(1)}, V),
    (PE + 'pell_solution_generator', {'D': lt(1)}, V),
    (EN + 'bell_number', {'n': lt(0)}, V), (EN + 'multinomial', {'k': ('o', 'list', None, (), None, None)}, V),
    (EN + 'multinomial', {'n': lt(0), 'k': ('o', 'list', None, (ge(1), ge(0)), None, None)}, V),
    (PA + 'dijkstra', {'s': ALIEN}, V), (PA + 'dijkstra_iterator', {'s': ALIEN}, V), (PA + 'dijkstra_buckets', {'s': ALIEN}, V),
    (PA + 'dijkstra_pairing_heap', {'s': ALIEN}, V), (PA + 'bellman_ford', {'s': ALIEN}, V), (PA + 'dijkstra_bidirectional', {'s': ALIEN}, V),
    (PA + 'dijkstra_bidirectional', {'t': ALIEN}, V),
    (CQ + 'maximal_cliques', {'algorithm': k_('no such algorithm')}, V), (CQ + 'maximum_clique', {'algorithm': k_('no such algorithm')}, V),
]
for _f in ('euler_phi', 'moebius_mu', 'divisor_sigma', 'divisor_tau'):
    REJECT += [(AF + _f, {'n': lt(1)}, V), (AF + _f, {'n': NEGFAC}, V), (AF + _f, {'n': STRING}, V)]
for _f in ('euler_phi_list', 'moebius_list', 'sigma_list', 'tau_list'):
    REJECT.append((AS + _f, {'n': lt(1)}, V))
for _f in ('euler_phi_sum', 'euler_phi_weighted_sum', 'moebius_sum', 'sigma_sum'):
    REJECT.append((AU + _f, {'n': lt(1)}, V))
for _f in ('divisors', 'prime_divisors', 'xdivisors', 'unitary_divisors', 'divisor_pairs'):
    REJECT.append((FA + _f, {'n': ABSENT, 'factorization': ABSENT}, 'TypeError'))

# function, boundary value inside the domain: the call must be able to return
ACCEPT = [
    (C + 'power_mod', {'a': k_(0)}), (C + 'power_mod', {'k': k_(0)}), (C + 'power_mod', {'m': k_(1)}), (C + 'inverse_mod', {'m': k_(2)}),
    (C + 'integer_log', {'b': k_(2)}), (C + 'integer_log', {'n': k_(1)}), (C + 'integer_nth_root', {'m': k_(0)}), (C + 'integer_nth_root', {'n': k_(1)}),
    (C + 'integer_sqrt', {'n': k_(0)}), (C + 'jacobi_symbol', {'m': ODD}), (C + 'jacobi_symbol', {'m': k_(1)}),
    (CL + 'is_power', {'k': k_(1)}), (CL + 'is_power', {'n': k_(1)}), (CL + 'is_power', {'k': ABSENT}), (CL + 'is_squarefree', {'n': k_(1)}),
    (ZN + 'is_primitive_root', {'n': k_(2)}), (ZN + 'sqrts_mod_p', {'p': k_(2)}), (ZN + 'linear_congruence', {'n': k_(2)}),
    (AF + 'carmichael_lambda', {'n': k_(1)}), (AF + 'factorial', {'n': k_(0)}), (AF + 'primorial', {'n': k_(1)}), (AF + 'divisor_sigma', {'k': k_(0)}),
    (AS + 'sigma_list', {'k': k_(0)}), (AI + 'euler_phi_inverse', {'n': k_(1)}), (FA + 'factor', {'n': k_(1)}), (FA + 'factor', {'n': k_(-1)}),
    (FA + 'factor_back', {'fac': specs.PAIRS}),
    (PE + 'pell_fundamental_solution', {'D': k_(2), 'n': k_(1)}), (PE + 'pell_fundamental_solution', {'D': k_(2), 'n': k_(-1)}), (PE + 'PellEquation.__init__', {'D': k_(2)}),
    (EN + 'bell_number', {'n': k_(0)}),
    (CQ + 'maximal_cliques', {'algorithm': k_('tomita')}), (CQ + 'maximal_cliques', {'algorithm': k_('bron_kerbosch')}),
    (CQ + 'maximal_cliques', {'algorithm': k_('bron_kerbosch_binary')}),
    (CQ + 'maximum_clique', {'algorithm': k_('ostergard')}), (CQ + 'maximum_clique', {'algorithm': k_('pardalos')}),
]
for _f in ('euler_phi', 'moebius_mu', 'divisor_sigma', 'divisor_tau'):
    ACCEPT += [(AF + _f, {'n': k_(1)}), (AF + _f, {'n': specs.PAIRS})]
for _f in ('euler_phi_list', 'moebius_list', 'sigma_list', 'tau_list'):
    ACCEPT.append((AS + _f, {'n': k_(1)}))
for _f in ('euler_phi_sum', 'euler_phi_weighted_sum', 'moebius_sum', 'sigma_sum'):
    ACCEPT.append((AU + _f, {'n': k_(1)}))
for _f in ('divisors', 'prime_divisors', 'xdivisors', 'unitary_divisors', 'divisor_pairs'):
    ACCEPT += [(FA + _f, {'n': specs.INT_S, 'factorization': ABSENT}), (FA + _f, {'n': ABSENT, 'factorization': specs.PAIRS})]
for _f in ('dijkstra', 'dijkstra_iterator', 'dijkstra_buckets', 'dijkstra_pairing_heap', 'bellman_ford', 'dijkstra_bidirectional'):
    ACCEPT.append((PA + _f, {}))

TWO_MODULI = ('o', 'list', None, tuple(specs.T(specs.INT_S, ('v', mkint(lo, hi))) for lo, hi in ((2, 10), (11, 20))), None, None)
THREE_MODULI = ('o', 'list', None, tuple(specs.T(specs.INT_S, ('v', mkint(lo, hi))) for lo, hi in ((2, 10), (11, 20), (201, 300))), None, None)

# function, arguments, assumption about the results of auxiliary number-theoretic functions, exception or None (must be able to return)
#   ('gcd', g, I): every gcd (or extended gcd) that involves an argument inside interval I is in g, all others are 1
#   ('gcd', g, ((I, J), K)): of three moduli inside I, J, K those inside I and J share a factor and the one inside K is coprime to both
#   ('square',): the argument is a perfect square (is_square answers its root)
SHARED = mkint(2, None)
ASSUMED = [
    (C + 'inverse_mod', {'m': ge(2)}, ('gcd', SHARED, None), V), (C + 'inverse_mod', {'m': ge(2)}, ('gcd', vconst(1), None), None),
    (ZN + 'multiplicative_order', {'n': ge(2)}, ('gcd', SHARED, None), V), (ZN + 'multiplicative_order', {'n': ge(2)}, ('gcd', vconst(1), None), None),
    (C + 'chinese', {'congruences': TWO_MODULI}, ('gcd', SHARED, None), V), (C + 'chinese', {'congruences': THREE_MODULI}, ('gcd', SHARED, None), V),
    (C + 'chinese', {'congruences': THREE_MODULI}, ('gcd', SHARED, (((2, 10), (11, 20)), (201, 300))), V),
    (C + 'chinese', {'congruences': THREE_MODULI}, ('gcd', SHARED, (((2, 10), (201, 300)), (11, 20))), V),
    (C + 'chinese', {'congruences': THREE_MODULI}, ('gcd', SHARED, (((11, 20), (201, 300)), (2, 10))), V),
    (C + 'chinese', {'congruences': THREE_MODULI}, ('gcd', vconst(1), None), None),
    (PE + 'PellEquation.__init__', {'D': k_(16)}, ('square', 4), V), (PE + 'pell_fundamental_solution', {'D': k_(16), 'n': k_(1)}, ('square', 4), V),
    (PE + 'pell_fundamental_solution', {'D': k_(16), 'n': k_(-1)}, ('square', 4), V), (PE + 'pell_small', {'D': k_(16)}, ('square', 4), V),
    ('rosemary/number_theory/continued_fractions.py:QuadraticIrrational.__init__', {'d': k_(16)}, ('square', 4), V),
    (EN + 'multinomial', {'n': ('v', mkint(0, 3)), 'k': ('o', 'list', None, (ge(2), ge(2)), None, None)}, (), V),
    (EN + 'multinomial', {'n': ('v', mkint(0, 1)), 'k': ('o', 'list', None, (ge(2),), None, None)}, (), V),
    (EN + 'multinomial', {'n': ge(4), 'k': ('o', 'list', None, (k_(2), k_(2)), None, None)}, (), None),
]


def tagged(v, iv):
    return v.only_int() and v.i[0] is not None and v.i[1] is not None and iv[0] <= v.i[0] and v.i[1] <= iv[1]


def assume(ctx, spec, log):
    """interpreter in which the auxiliary functions have the assumed results; calls are logged as (assumed value used, arguments bounded)"""
    I = ctx.interp(mode='inline')
    if not spec:
        return I
    if spec[0] == 'gcd':
        def val(run, b, st, node, triple):
            vs = [v for v in b.values() if isinstance(v, Val)]
            if spec[2] is None or isinstance(spec[2][0], int):
                hit = spec[2] is None or any(tagged(v, spec[2]) for v in vs)
            else:
                third = spec[2][1]
                hit = any(any(tagged(v, iv) for iv in spec[2][0]) and not all(tagged(w, third) for w in vs[:k] + vs[k + 1:]) for k, v in enumerate(vs))
            log.append((hit, all(v.only_int() and None not in v.i[:2] for v in vs)))
            d = spec[1] if hit else vconst(1)
            return run.tuple_elem(st, node, [INT, INT, d], 'assumed') if triple else d
        for name in ('gcd', 'ext_gcd', 'gcd_list'):
            f = ctx.find(C + name)
            if f is not None:
                I.oracles[f] = lambda run, b, st, node, t=(name == 'ext_gcd'): val(run, b, st, node, t)
        for mod in ('math', 'fractions'):
            I.ext_oracles[(mod, 'gcd')] = lambda run, b, st, node: val(run, b, st, node, False)
    else:
        def root(run, b, st, node):
            log.append((True, True))
            return vconst(spec[1])
        for fq in (CL + 'is_square', C + 'integer_sqrt'):
            f = ctx.find(fq)
            if f is not None:
                I.oracles[f] = root
        I.ext_oracles[('math', 'isqrt')] = root
    return I


SCENARIOS = '''
from rosemary.algebra.matrices.matrices import Matrix
from rosemary.graphs.graphs import Graph


def reject_matrix_sum_columns(a):
    return Matrix(2, 3) + Matrix(2, 4)


def reject_matrix_sum_rows(a):
    return Matrix(2, 3) + Matrix(3, 3)


def reject_matrix_difference_columns(a):
    return Matrix(2, 3) - Matrix(2, 4)


def reject_matrix_difference_rows(a):
    return Matrix(2, 3) - Matrix(3, 3)


def reject_matrix_product(a):
    return Matrix(2, 3) * Matrix(2, 3)


def reject_matrix_product_inner(a):
    return Matrix(3, 3) * Matrix(2, 3)


def reject_matrix_determinant_wide(a):
    return Matrix(2, 3).determinant()


def reject_matrix_determinant_tall(a):
    return Matrix(3, 2).determinant()


def reject_graph_maximum_degree(a):
    return Graph().maximum_degree()


def reject_graph_maximum_degree_vertex(a):
    return Graph().maximum_degree_vertex()


def reject_graph_minimum_degree(a):
    return Graph().minimum_degree()


def reject_graph_minimum_degree_vertex(a):
    return Graph().minimum_degree_vertex()


def reject_graph_remove_edge(a):
    return Graph().remove_edge((1, 2, 3, 4))


def reject_graph_delete_edge(a):
    return Graph().delete_edge((1,))


def accept_matrix_sum(a):
    return Matrix(2, 3) + Matrix(2, 3)


def accept_matrix_difference(a):
    return Matrix(2, 3) - Matrix(2, 3)


def accept_matrix_product(a):
    return Matrix(2, 3) * Matrix(3, 4)


def accept_matrix_determinant(a):
    return Matrix(1).determinant()


def accept_graph_maximum_degree(a):
    g = Graph()
    g.add_vertex(a)
    return g.maximum_degree()


def accept_graph_remove_edge(a):
    return Graph().remove_edge((1, 2))
'''


def ctx_of(I, f, args):
    out = []
    for p, sh in specs.param_shapes(I, f):
        out.append((p, args.get(p, sh)))
    return tuple(out)


def show(args):
    from .P07 import shtext
    return ', '.join('%s in %s' % (p, 'a vertex not in the graph' if sh is ALIEN else shtext(sh)) for p, sh in sorted(args.items()))


def outcome(I, f, args):
    r = I.analyze(f, ctx_of(I, f, args))
    normal = r.exit is not None
    if f.is_gen:
        normal = normal or not r.yields.is_bot()
    elif normal and r.exit is not None and r.endless(r.ret, r.exit) and r.elems(r.exit, r.ret, f.node).is_bot():
        normal = False          # what it returns is a generator that raises before its first item
    return normal, set(r.raises), r


def judge_reject(I, res, f, args, exc, where, what):
    res.count('restrictions')
    normal, raises, r = outcome(I, f, args)
    if normal:
        res.add(Finding('accepted', where, what, '%s: a call outside the documented domain may return normally instead of raising %s' % (what, exc),
                        f.node.lineno))
    elif exc not in raises:
        res.add(Finding('wrong-exception', where, what, '%s: raises %s, never the documented %s' % (what, sorted(raises) or 'nothing', exc), f.node.lineno))
    else:
        g, n = r.raises[exc]
        res.sample('restrictions', '%s [%s]: %s at %s line %s' % (f.fq, what, exc, g.fq, getattr(n, 'lineno', '?')), 200)


def judge_accept(I, res, f, args, where, what):
    res.count('boundary_values')
    normal, raises, r = outcome(I, f, args)
    if not normal:
        res.add(Finding('rejected', where, what, '%s: every path raises (%s)' % (what, sorted(raises)), f.node.lineno))


def run(ctx, fixture=False):
    res = Result()
    I = ctx.interp(mode='inline')
    if fixture:
        for f in ctx.api():
            args = {'n': lt(1)}
            judge_reject(I, res, f, args, V, f, 'n in %s' % shorten(args))
            judge_accept(I, res, f, {'n': k_(1)}, f, 'n = 1')
        return res
    for fq, args, exc in REJECT:
        f = ctx.need(fq)
        judge_reject(I, res, f, args, exc, f, show(args))
    for fq, args in ACCEPT:
        f = ctx.need(fq)
        judge_accept(I, res, f, args, f, show(args))
    for fq, args, spec, exc in ASSUMED:
        f = ctx.need(fq)
        log = []
        J = assume(ctx, spec, log)
        what = show(args) + (' with %s' % (spec[0],) if spec else '')
        if exc is None:
            judge_accept(J, res, f, args, f, what)
            continue
        normal, raises, r = outcome(J, f, args)
        if spec and normal and not any(h for h, _ in log) and (any(not e for _, e in log) or (not log and exc in raises)):
            # the function no longer consults the auxiliary functions in a way this analysis follows: no verdict
            res.count('restrictions_not_decided')
            continue
        judge_reject(J, res, f, args, exc, f, what)
    m = ctx.proj.add_source('scenarios', SCENARIOS)
    I = ctx.interp(mode='inline')
    I.peel = 4              # the loops that fill the matrices, row by row
    for name, f in sorted(m.functions.items()):
        if name.startswith('reject_'):
            judge_reject(I, res, f, {}, V, f, name[7:])
        else:
            judge_accept(I, res, f, {}, f, name[7:])
    return res


def shorten(args):
    return show(args)


FIXTURE = 'p08'
EXPECT = [('accepted', 'bad_off_by_one'), ('accepted', 'bad_only_some'), ('wrong-exception', 'bad_exception'),
          ('rejected', 'bad_too_strict'), ('accepted', 'bad_late')]
