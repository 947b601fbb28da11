"""Types assumed for the parameters of entry points (taken from the documentation of the library).

These are the *inputs* the properties quantify over: any value of these types.
"""
from .absval import *

U = ('v', UNK)
INT_S = ('v', INT)
NUM = ('v', Val(i=ANY_INT, f=(None, None)))
FLT = ('v', FLOAT)
STR_S = ('v', STR)
BOOL_S = ('v', BOOL)
RGN = ('o', 'rgn', None, None, None, None)


def L(e=None):
    return ('o', 'list', None, None, e or U, None)


def S(e=None):
    return ('o', 'set', None, None, e or U, None)


def T(*parts):
    return ('o', 'tuple', None, tuple(parts), None, None)


def D(k=None, e=None):
    return ('o', 'dict', None, None, e or U, k or U)


def OPT(s):
    return ('u', ('v', NONE), s)


def UNION(*s):
    return ('u',) + s


PAIRS = L(T(INT_S, INT_S))
POINTS = L(T(NUM, NUM))
MATRIX = L(L(NUM))
POLY = L(INT_S)
INTS = set('n m k a b d D N B t x y p q g prec limit iterations bound r kthresh nrows ncols u_ popsize cmax capacity '
           'num_vertices color_limit mis_limit passes M_ j s_ max_depth phi idx'.split())
OPTIONAL_INT = set('max_depth'.split())
BOOLS = set('weights classes edge_list verbose use_greedy detect_only skip_trial_division skip_power_detection use_cfrac'.split())

BYNAME = {
    'factorization': PAIRS, 'n_factorization': PAIRS, 'fac': PAIRS, 'phi_divisors': L(INT_S), 'congruences': PAIRS,
    'moduli': L(INT_S), 'coeff_list': L(INT_S), 'graph': 'Graph', 'terminals': L(U), 'edges': L(T(U, U)),
    'vertex_list': L(U), 'edge_list': L(U), 'points': POINTS, 'distance_matrix': MATRIX, 'items': POINTS, 'path': L(INT_S),
    'elements': L(U), 'values': L(U), 'vertices': L(U), 'weight_map': D(U, NUM), 'algorithm': STR_S, 'name': STR_S,
    'factor_base': L(INT_S), 'sets': L(L(U)), 'target': L(U), 'node_list': L(U), 'entries': L(L(INT_S)),
    'digits': STR_S, 'A': L(INT_S), 'L': L(INT_S), 'S': L(INT_S), 'lhs': L(STR_S), 'rhs': L(STR_S),
    'integers': L(INT_S), 'exponents': D(INT_S, L(INT_S)), 'allowed': S(U),
    'preconditioning_data': T(INT_S, L(INT_S), L(INT_S), L(INT_S), INT_S), 'key': U, 'value': U, 'func': U, 'u': U, 'v': U, 'w': U,
    's': U, 'start': U, 'root': U, 'firstSibling': U, 'weight': NUM,
}

OVERRIDE = {
    # (module suffix, qualified name, parameter): shape
    ('generation/tuples.py', 'n_tuples', 'M'): UNION(L(INT_S), INT_S),
    ('polynomials/algorithms.py', '*', 'M'): POLY,
    ('polynomials/algorithms.py', '*', 'N'): POLY,
    ('polynomials/algorithms.py', '*', 'A'): POLY,
    ('polynomials/algorithms.py', '*', 'B'): POLY,
    ('power_series/power_series.py', '*', 'A'): POLY,
    ('power_series/power_series.py', '*', 'M'): POLY,
    ('power_series/power_series.py', '*', 'N'): POLY,
    ('polynomials/polynomials.py', 'Polynomial.__init__', 'L'): UNION(POLY, T()[:2] + (None, None, INT_S, None)),
    ('polynomials/polynomials.py', 'Polynomial.__call__', 'x'): NUM,
    ('polynomials/polynomials.py', '*', 'other'): 'Polynomial|int',
    ('polynomials/polynomials.py', 'Polynomial.pseudo_quo_rem', 'other'): 'Polynomial',
    ('polynomials/polynomials.py', 'Polynomial.quo_rem', 'other'): 'Polynomial',
    ('polynomials/polynomials.py', 'Polynomial.gcd', 'other'): 'Polynomial',
    ('matrices/matrices.py', 'Matrix.__init__', 'm'): UNION(INT_S, L(L(NUM))),
    ('matrices/matrices.py', 'Matrix.__init__', 'n'): OPT(INT_S),
    ('matrices/matrices.py', 'Matrix.__getitem__', 'key'): UNION(INT_S, T(INT_S, INT_S)),
    ('matrices/matrices.py', 'Matrix.__setitem__', 'key'): T(INT_S, INT_S),
    ('matrices/matrices.py', 'Matrix.__setitem__', 'value'): NUM,
    ('matrices/matrices.py', '*', 'other'): 'Matrix|int',
    ('matrices/matrices.py', 'Matrix.__radd__', 'other'): INT_S,
    ('matrices/matrices.py', 'Matrix.__rsub__', 'other'): INT_S,
    ('matrices/matrices.py', 'Matrix.__rmul__', 'other'): 'int|Matrix',
    ('enumeration/enumeration.py', 'multinomial', 'k'): L(INT_S),
    ('enumeration/enumeration.py', 'bipartitions', 'm'): INT_S,
    ('enumeration/enumeration.py', 'necklaces', 'weights'): OPT(L(INT_S)),
    ('optimization/exact_cover.py', 'ExactCover.__init__', 'sets'): D(U, L(U)),
    ('optimization/exact_cover.py', 'ExactCoverBinary.__init__', 'integers'): L(INT_S),
    ('optimization/exact_cover.py', 'sudoku_vectors', 'M'): L(L(INT_S)),
    ('optimization/exact_cover.py', 'sudoku_dlx', 'a'): STR_S,
    ('optimization/genetic_tsp.py', 'TravelingSalesman.mgkrec', 'A'): L(INT_S),
    ('optimization/genetic_tsp.py', 'TravelingSalesman.mgkrec', 'B'): L(INT_S),
    ('optimization/genetic_tsp.py', '*', 'path'): L(INT_S),
    ('optimization/tsp.py', '*', 'points'): POINTS,
    ('data_structures/heaps.py', '*', 'value'): U,
    ('data_structures/heaps.py', '*', 'key'): U,
    ('data_structures/heaps.py', 'PairingHeap.insert_values', 'values'): L(T(U, U)),
    ('data_structures/heaps.py', 'PairingHeap.__init__', 'node'): ('v', NONE),
    ('data_structures/heaps.py', 'PairingHeap.insert_node', 'node'): '_PairingHeapNode',
    ('data_structures/heaps.py', '_link_nodes', '*'): '_PairingHeapNode',
    ('data_structures/heaps.py', '_leftist_heap_merge', '*'): '_LeftistHeapNode',
    ('data_structures/heaps.py', '_combine_siblings', '*'): '_PairingHeapNode',
    ('data_structures/heaps.py', 'LeftistHeap.merge', 'other'): 'LeftistHeap',
    ('data_structures/unionfind.py', '*', 'x'): U,
    ('data_structures/unionfind.py', '*', 'y'): U,
    ('graphs/graphs.py', '*', 'path'): STR_S,
    ('graphs/graphs.py', 'random_graph', 'd'): FLT,
    ('graphs/graphs.py', 'Graph.add_edges', 'edge_list'): L(UNION(T(U, U), T(U, U, NUM))),
    ('hamiltonian_paths.py', 'walks', 'a'): U,
    ('paths.py', '*', 't'): U,
    ('number_theory/core.py', 'gcd_list', 'L'): L(INT_S),
    ('number_theory/primes/prime_counting.py', 'lmo', 'x'): INT_S,
    ('factorization/algorithms.py', '_z2_gaussian_elimination', 'exponents'): L(L(INT_S)),
}


def class_shape(interp, name):
    ci = interp.proj_class(name)
    return ('o', 'inst', ci, None, None, None) if ci is not None else U


def expand(interp, sh):
    if isinstance(sh, str):
        parts = []
        for p in sh.split('|'):
            parts.append({'int': INT_S, 'num': NUM, 'None': ('v', NONE)}.get(p) or class_shape(interp, p))
        return parts[0] if len(parts) == 1 else ('u',) + tuple(parts)
    return sh


def param_shape(interp, fn, p):
    rel, qual = fn.module.relpath, fn.qual
    best = None
    for (suf, q, nm), sh in OVERRIDE.items():
        if rel.endswith(suf) and (q == qual or q == '*') and (nm == p or nm == '*'):
            score = (q != '*') * 2 + (nm != '*')
            if best is None or score > best[0]:
                best = (score, sh)
    if best is not None:
        return expand(interp, best[1])
    if p in INTS:
        return INT_S
    if p in BOOLS:
        return BOOL_S
    if p in BYNAME:
        return expand(interp, BYNAME[p])
    return None


def ints_only(sh):
    """the shape with every number that may be an integer or a float restricted to integers"""
    if sh[0] == 'v' and sh[1].i is not None and sh[1].f is not None:
        return ('v', sh[1].with_(f=None))
    return tuple(ints_only(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                 tuple(ints_only(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x for x in sh)


def opaque(sh):
    """the shape with the caller's own values (vertices, labels, keys) marked"""
    if sh == U:
        return ('v', OPAQUE)
    if sh[0] == 'u':
        return sh if RGN in sh else ('u',) + tuple(opaque(x) for x in sh[1:])
    return tuple(opaque(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                 tuple(opaque(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else x for x in sh)


def param_shapes(interp, fn, cls=None):
    out = _param_shapes(interp, fn, cls)
    if getattr(interp, 'opaque', False):
        out = tuple((p, opaque(sh)) for p, sh in out)
    if getattr(interp, 'ints_only', False):
        out = tuple((p, ints_only(sh)) for p, sh in out)
    return out


def _param_shapes(interp, fn, cls=None):
    cls = cls or fn.cls
    out = []
    decs = [getattr(d, 'id', None) for d in fn.decorators]
    for i, p in enumerate(list(fn.params) + list(fn.kwonly)):
        if cls is not None and i == 0 and 'staticmethod' not in decs:
            if 'classmethod' in decs:
                out.append((p, ('const', Obj('class', ('C', cls.name, cls.module.name), cls))))
            elif p == 'cls':
                out.append((p, ('const', Obj('class', ('C', cls.name, cls.module.name), cls))))
            else:
                out.append((p, ('o', 'inst', cls, None, None, None)))
            continue
        sh = param_shape(interp, fn, p)
        if sh is None:
            sh = ('u', U, RGN)
        d = fn.defaults.get(p)
        if d is not None:
            # the default is always a possible value
            import ast
            if isinstance(d, ast.Constant) and d.value is None:
                sh = OPT(sh) if sh[0] != 'u' else ('u', ('v', NONE)) + sh[1:]
        out.append((p, sh))
    if fn.vararg:
        out.append(('*' + fn.vararg, U))
    if fn.kwarg:
        out.append(('**' + fn.kwarg, ('u', U, RGN)))
    return tuple(out)


# further argument combinations documented for the same function (parameter types that depend on each other)
EXTRA = [
    ('algebra/matrices/matrices.py', 'Matrix.__setitem__', {'key': INT_S, 'value': L(NUM)}),
]


def extra_contexts(interp, fn):
    out = []
    for suf, q, d in EXTRA:
        if fn.module.relpath.endswith(suf) and fn.qual == q:
            out.append(tuple((p, d.get(p, sh)) for p, sh in param_shapes(interp, fn)))
    return out
