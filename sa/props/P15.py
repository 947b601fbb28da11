"""P15: lists documented as sorted are sorted on every path; heaps are only handled as heaps."""
import ast
from ..common import *

LEVEL = 'other'
EXPLANATION = ('Must-typestate over abstract lists: a list becomes "in order" by sort() or sorted() without a key or a reversal, by insort into a '
               'list in order, or because it has at most one element or known ascending constants; every store, append, extension, reversal, '
               'shuffle or other change of the object, through whatever name or helper, takes the mark away, and a join keeps it only when both sides '
               'have it.  At each return of each listed operation every list the result (or the documented part of it) may be must carry the mark.  '
               'A list becomes a heap when it has at most one element, is in order or is heapified; only heapq operations keep that mark, and '
               'each smallest entry is taken from a list that has it on every path.')
RULES = ['unsorted-result: on some path the list handed out was not put in order, or was changed afterwards',
         'not-a-heap: the smallest entry is taken from a list that some path has not made, or not kept, a heap']
ASSUMPTIONS = ['elements are totally ordered', 'heaps that a function gets as a parameter are judged in its callers, where they are made']
MINIMUM = {'operations': 20, 'ways_out': 18, 'heap_operations': 3}

_F = 'rosemary/number_theory/factorization/factorization.py'
_Z = 'rosemary/number_theory/zn_arithmetic.py'
_S = 'rosemary/graphs/algorithms/spanning_trees.py'
# file -> operation -> part of the result that is sorted: None the result itself, a number the part of the tuple
SORTED = {
    _F: {'divisors': None, 'unitary_divisors': None, 'factor': None, 'prime_divisors': None},
    'rosemary/number_theory/arithmetic_functions/inverse_functions.py': {'euler_phi_inverse': None},
    _Z: {'fibonacci_primitive_roots': None, 'sqrts_mod_p': None, 'sqrts_mod_n': None, 'nth_roots_of_unity_mod_p': None,
         'nth_roots_of_minus1_mod_p': None, 'linear_congruence': None, 'quadratic_congruence': None},
    'rosemary/number_theory/diophantine_equations/pell.py': {'pell_minimal_positive_solutions': None},
    'rosemary/number_theory/arithmetic_progressions.py': {'longest_ap': None},
    'rosemary/graphs/graphs.py': {'Graph.vertices': None, 'Graph.edges': None},
    _S: {'prim': 1, 'kruskal': 1, 'cheriton_tarjan': 1},
    'rosemary/graphs/algorithms/independent_sets.py': {'greedy': 1},
    'rosemary/graphs/algorithms/steiner_trees.py': {'distance_network_heuristic': 1},
    'rosemary/combinatorics/optimization/knapsack.py': {'dynamic_programming': 1},
}


def in_order(st, o):
    """the list is certainly ascending"""
    if o.kind == 'range' or 'S' in st.must.get(o, ()):
        return True
    c = st.store.get(o)
    if c is None:
        return False
    hi = c.length()[1]
    if hi is not None and hi <= 1:
        return True
    if c.ex is not None:
        return all(a.only_int() and b.only_int() and a.i[1] is not None and b.i[0] is not None and a.i[1] <= b.i[0] for a, b in zip(c.ex, c.ex[1:]))
    return False


def parts(st, v, part):
    if part is None:
        return [o for o in v.o if o.kind == 'list']
    out = []
    for o in v.o:
        if o.kind in ('tuple', 'list'):
            c = st.store.get(o)
            if c is not None and c.ex is not None and len(c.ex) > part:
                out.extend(x for x in c.ex[part].o if x.kind == 'list')
    return out


def judge(r, f, part, what, res):
    res.count('operations')
    for st, v, node in r.retsites:
        if st.dead:
            continue
        todo = parts(st, v, part)
        if not todo:
            continue
        res.count('ways_out')
        bad = [o for o in todo if not in_order(st, o)]
        if bad:
            line = getattr(node, 'lineno', None) or f.node.lineno
            res.add(Finding('unsorted-result', f, what, '%s is documented as sorted; the list returned here is, on some path, not sorted after its last change%s' % (
                what, '' if part is None else ' (item %d of the result)' % part), line))


def run(ctx, fixture=False):
    res = Result()
    seen = {}

    def hk(kind, I, node, kw):
        if kind == 'heap' and kw['how'] in ('heappop', 'heapreplace', 'heappushpop'):
            o = kw['obj']
            seen.setdefault(node, []).append((o, kw['heap']))
    I = ctx.interp(hooks=[hk])
    I.sorted_params = ('factorization', 'n_factorization')
    runs = ctx.run_all(I)
    table = FIX if fixture else SORTED
    lost = 0
    for rel in sorted(table):
        for q in sorted(table[rel]):
            f = ctx.find('%s:%s' % (rel, q))
            if f is None:
                lost += 1
                res.count('names_not_found')
                continue
            if f.kwarg:
                # without the keywords that ask for another order
                shapes = tuple((n, ('v', BOT) if n == '**' + f.kwarg else s) for n, s in specs.param_shapes(I, f))
                r = I.analyze(f, shapes)
            else:
                r = runs.get(f) or ctx.run_all(I, [f]).get(f)
            if r is None:
                res.count('not_analysed')
                continue
            judge(r, f, table[rel][q], q, res)
    where = {}
    for f in ctx.proj.functions:
        for n in ast.walk(f.node):
            if n in seen:
                if n not in where or f.node in ast.walk(where[n].node):
                    where[n] = f
    for n, os in seen.items():
        own = [h for o, h in os if o.kind == 'list' and o.root == 'A' and not o.rec]
        if not own:
            continue
        res.count('heap_operations')
        if not all(own):
            f = where.get(n)
            if f is not None:
                res.add(Finding('not-a-heap', f, ast.unparse(n)[:80], '`%s` takes the smallest entry of a list that on some path was not made a heap, or was changed '
                                'other than by heapq since' % ast.unparse(n)[:80], n.lineno))
    if lost > 6:
        raise Broken('documented operations no longer found: %d' % lost)
    return res


_X = 'rosemary/order.py'
FIX = {_X: {'ok_sorted': None, 'ok_branch': None, 'ok_helper': None, 'ok_pair': 1, 'ok_small': None, 'ok_either': None, 'ok_project': None, 'ok_gather': None, 'bad_project': None, 'bad_gather': None, 'bad_gather_set': None,
            'bad_key': None, 'bad_after': None, 'bad_branch': None, 'bad_alias': None, 'bad_reverse': None, 'bad_pair': 1, 'bad_before': None,
            'bad_helper': None}}
FIXTURE = 'p15'
EXPECT = [('unsorted-result', n) for n in ('bad_key', 'bad_after', 'bad_branch', 'bad_alias', 'bad_reverse', 'bad_pair', 'bad_before', 'bad_helper', 'bad_project', 'bad_gather', 'bad_gather_set')] + [
    ('not-a-heap', 'bad_heap'), ('not-a-heap', 'bad_heap_append'), ('not-a-heap', 'bad_heap_store')]
