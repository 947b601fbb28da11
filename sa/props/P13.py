"""P13: the best solution kept by a search is a snapshot, recorded together with the value that was compared."""
import ast
from .. import records
from ..common import *

LEVEL = 'other'
EXPLANATION = ('An assignment is a record when it is controlled by an order comparison with a place that the same branch overwrites (new < best, estimates, '
               'incumbents; also negated, nested, early-continue and tuple forms).  (1) Typestate on abstract objects: a list, set or dict recorded by '
               'reference, or shared by a recorded copy, becomes recorded; a later change of it through anything but the record, in the function, '
               'its recursion, closures or callees, is reported.  (2) In a branch that improves a value, what is stored is what was compared, after '
               'expanding local names and ordering sums and products.  (3) What is recorded with an improvement of a place in one branch is '
               'recorded on every path of each branch that improves that place; value and solution that an operation returns as a pair, or keeps in one list, are '
               'recorded together and nowhere else.')
RULES = ['changed-after-recording: the recorded solution may still be changed by the search',
         'other-value-recorded: the value that passed the comparison is not the value that is stored',
         'value-without-solution: on some path a value is improved and the solution that goes with it is not recorded, or the reverse']
ASSUMPTIONS = ['an object returned by a call on the right of a record is taken to be fresh, apart from what it contains']
MINIMUM = {'records': 1}


def norm(e, env, depth=0):
    """sums and products in canonical order, local names expanded"""
    if isinstance(e, ast.Name) and e.id in env and depth < 4:
        return norm(env[e.id], env, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        terms = {}

        def add(x, sign, d):
            if isinstance(x, ast.Name) and x.id in env and d < 4:
                add(env[x.id], sign, d + 1)
            elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                add(x.left, sign, d)
                add(x.right, sign, d)
            elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub):
                add(x.left, sign, d)
                add(x.right, -sign, d)
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
                add(x.operand, -sign, d)
            elif isinstance(x, ast.Constant) and isinstance(x.value, int):
                terms['1'] = terms.get('1', 0) + sign*x.value
            else:
                k = norm(x, env, d)
                terms[k] = terms.get(k, 0) + sign
        add(e, 1, depth)
        terms = {k: c for k, c in terms.items() if c}
        if len(terms) == 1:
            (k, c), = terms.items()
            if c == 1 and k != '1':
                return k
        return 'sum(%s)' % ', '.join('%s*%s' % (c, k) for k, c in sorted(terms.items()))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return 'prod(%s)' % ', '.join(sorted((norm(e.left, env, depth), norm(e.right, env, depth))))
    if isinstance(e, ast.BinOp):
        return '%s(%s, %s)' % (type(e.op).__name__, norm(e.left, env, depth), norm(e.right, env, depth))
    if isinstance(e, ast.Call) and not e.keywords:
        return '%s(%s)' % (ast.unparse(e.func), ', '.join(norm(a, env, depth) for a in e.args))
    if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
        return '%s[%s]' % (norm(e.value, env, depth), norm(e.slice, env, depth))
    if isinstance(e, ast.Attribute):
        return '%s.%s' % (norm(e.value, env, depth), e.attr)
    return ast.unparse(e)


def own_nodes(fnode):
    todo = list(ast.iter_child_nodes(fnode))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def single_definitions(fnode):
    """names with one assignment in the function, to a simple expression"""
    defs, count = {}, {}
    a = fnode.args
    for x in a.args + a.kwonlyargs + a.posonlyargs:
        count[x.arg] = 2
    for n in own_nodes(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            count[n.id] = count.get(n.id, 0) + 1
    for n in own_nodes(fnode):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and count.get(n.targets[0].id) == 1:
            if all(isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.BinOp, ast.Constant, ast.UnaryOp, ast.Call, ast.Tuple, ast.operator, ast.unaryop, ast.expr_context))
                   for x in ast.walk(n.value)):
                defs[n.targets[0].id] = n.value
    return defs


def stored(place, s):
    """the expression an assignment stores in the place, or None"""
    txt = ast.unparse(place)
    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
        if ast.unparse(t) == txt:
            return s.value
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
            for a, b in zip(t.elts, s.value.elts):
                if ast.unparse(a) == txt:
                    return b
    if records.whole(s, place) and isinstance(place.slice, ast.Constant) and isinstance(place.slice.value, int) and -len(s.value.elts) <= place.slice.value < len(s.value.elts):
        return s.value.elts[place.slice.value]
    return None


def names(e, env=None):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def witnesses(test, blk, place, other, hit, asg, root):
    """other places that the branch records: not the value itself, not what the comparison works on, not flags, not temporaries"""
    txt = ast.unparse(place)
    out = {}
    busy = names(other)
    inner = {s for t2, b2, p2, o2, h2, a2 in records.sites(ast.Module(blk, [])) for s in a2}
    inside = {id(n) for s in blk for n in ast.walk(s)}
    for s in asg:
        if s in inner or isinstance(s.value, ast.Constant):
            continue
        for t in records.targets_of(s):
            u = ast.unparse(t)
            if u == txt or isinstance(t, ast.Name) and t.id in busy:
                continue
            if part_of(u, txt):
                # the value and its solution in one
                continue
            if isinstance(t, ast.Name) and not any(isinstance(n, ast.Name) and n.id == t.id and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(root)):
                continue
            out[u] = s
    return out


def always(blk, pred):
    """every path that reaches the end of the block, or leaves it, passes a statement for which pred holds"""
    for s in blk:
        if pred(s):
            return True
        if isinstance(s, ast.If):
            if s.orelse and always(s.body, pred) and always(s.orelse, pred):
                return True
        if isinstance(s, ast.With) and always(s.body, pred):
            return True
        if isinstance(s, ast.Try) and always(s.body, pred):
            return True
    return False


def part_of(a, b):
    """the same place, or one is an entry of the other"""
    a, b = (x[:-3] if x.endswith('[:]') else x for x in (a, b))
    return a == b or a.startswith(b + '[') or b.startswith(a + '[')


def storing(u):
    def pred(s):
        return isinstance(s, (ast.Assign, ast.AnnAssign)) and any(part_of(ast.unparse(t), u) for t in records.targets_of(s))
    return pred


def in_loop(blk, s):
    return any(isinstance(n, (ast.For, ast.While)) and s in ast.walk(n) for x in blk for n in ast.walk(x))


def syntactic(f, nested, root, res):
    env = single_definitions(f.node)
    by_place = {}
    for test, blk, place, other, hit, asg in records.sites(f.node):
        if id(test) in nested:
            continue
        res.count('records')
        if len(hit) != 1 or in_loop(blk, hit[0]):
            continue
        v = stored(place, hit[0])
        if v is None:
            continue
        # a swap or a step of a search that moves its own limits is no record
        mine = ast.unparse(place)
        refs = {ast.unparse(x) for x in ast.walk(other) if isinstance(x, records.REF)}
        if mine in refs or any(ast.unparse(t) in {ast.unparse(x) for x in ast.walk(other) if isinstance(x, records.REF)} for s in asg for t in records.targets_of(s)):
            continue
        ws = witnesses(test, blk, place, other, hit, asg, root)
        if norm(v, env) == norm(other, env):
            res.count('values_compared')
            by_place.setdefault(mine, []).append((test, blk, ws, hit[0]))
        elif ws and names(v) & names(other) - names(place) and plain(v) and plain(other):
            res.add(Finding('other-value-recorded', f, mine, '`%s` is stored in %s where `%s` was compared with it' % (
                ast.unparse(v), mine, ast.unparse(other)), hit[0].lineno))
    for ss in by_place.values():
        for test, blk, ws, h in ss:
            keys = [ast.unparse(t.slice) for t in records.targets_of(h) if isinstance(t, ast.Subscript)]
            for x in blk:
                c = x.value if isinstance(x, ast.Expr) else None
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'setdefault' and c.args and ast.unparse(c.args[0]) in keys:
                    res.add(Finding('value-without-solution', f, ast.unparse(h), 'this improvement leaves the entry %s already has: setdefault keeps the first one' % ast.unparse(c.func.value), x.lineno))
    for txt, ss in sorted(by_place.items()):
        allw = {u for _, _, ws, _ in ss for u in ws}
        for test, blk, ws, h in ss:
            if not always(blk, storing(txt)):
                lone = [u for u in sorted(ws) if always(blk, storing(u))]
                if lone:
                    res.add(Finding('value-without-solution', f, txt, '%s is recorded here on a path that does not record the value %s that goes with it' % (lone[0], txt), ws[lone[0]].lineno))
                continue
            for u in sorted(allw):
                if always(blk, storing(u)) or u in ws and in_loop(blk, ws[u]):
                    res.count('recorded_together')
                else:
                    res.add(Finding('value-without-solution', f, txt, '%s is improved here on a path that does not record %s, which is recorded with it %s' % (
                        txt, u, 'on other paths' if u in ws else 'elsewhere'), h.lineno))


_G = 'rosemary/graphs/algorithms/'
_O = 'rosemary/combinatorics/optimization/'
# operations whose result is (value, solution) with both kept by the function itself
PAIRS = {
    _G + 'paths.py': 'dijkstra dijkstra_buckets dijkstra_pairing_heap bellman_ford dijkstra_bidirectional floyd_warshall',
    _G + 'spanning_trees.py': 'prim',
    _G + 'steiner_trees.py': 'minimum_cost_paths_heuristic',
    _G + 'coloring.py': 'korman',
    _O + 'knapsack.py': 'simulated_annealing',
    _O + 'tsp.py': 'simulated_annealing_two_opt',
    _O + 'genetic_tsp.py': 'TravelingSalesman.solve',
}


def root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def bare(e):
    """the variable a result is, or is a sorted or plain copy of"""
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('sorted', 'list', 'tuple', 'dict') and len(e.args) == 1:
        e = e.args[0]
    return e.id if isinstance(e, ast.Name) else None


def outer_loops(fnode):
    todo, out = list(fnode.body), []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.For, ast.While)):
            out.append(n)
        elif not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            todo.extend(x for x in ast.iter_child_nodes(n) if isinstance(x, (ast.stmt, ast.excepthandler)))
    return out


def touches(s, w):
    """the statement stores in the variable or an entry of it, or hands it to a helper"""
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(root_name(t) == w for t in records.targets_of(s)):
        return True
    if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
        return False
    for n in ast.walk(s):
        if isinstance(n, ast.Call):
            if any(isinstance(a, ast.Name) and a.id == w for a in list(n.args) + [k.value for k in n.keywords]):
                return True
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('update', '__setitem__') and root_name(n.func.value) == w:
                return True
    return False


def pairs(f, res):
    """the variables that a function returns as value and solution are recorded together and nowhere else"""
    pair = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == 2:
            v, w = (bare(e) for e in n.value.elts)
            if v and w and v != w:
                pair.add((v, w))
    ss = list(records.sites(f.node))
    for v, w in sorted(pair):
        res.count('pairs_followed')
        for test, blk, place, other, hit, asg in ss:
            if root_name(place) == v and any(s in blk or s in [x for b in blk for x in ast.walk(b)] for s in hit):
                if not always(blk, lambda s: touches(s, w)) and always(blk, lambda s: touches(s, v)):
                    res.add(Finding('value-without-solution', f, ast.unparse(place), '%s is improved here on a path that does not record %s, which is returned with it' % (
                        ast.unparse(place), w), hit[0].lineno))
        for loop in outer_loops(f.node):
            inside = [x for x in ss if any(x[0] is n for n in ast.walk(loop))]
            if not inside:
                continue
            good = {id(n) for x in inside for b in x[1] for n in ast.walk(b)}
            for n in ast.walk(loop):
                if isinstance(n, ast.Assign) and id(n) not in good and any(root_name(t) == w for t in records.targets_of(n)):
                    if v in {root_name(t) for t in records.targets_of(n)} or any(n in b and any(touches(x, v) for x in b) for b in blocks(loop)):
                        continue        # both are set anew
                    res.add(Finding('value-without-solution', f, ast.unparse(n.targets[0]), '%s is recorded here whether or not the value returned with it improves' % ast.unparse(
                        n.targets[0]), n.lineno))


def blocks(node):
    for n in ast.walk(node):
        for b in ('body', 'orelse', 'finalbody'):
            x = getattr(n, b, None)
            if isinstance(x, list):
                yield x


def slots(f, nested, res):
    """entries of a list that records value and solution"""
    ss = [x for x in records.sites(f.node) if id(x[0]) not in nested and isinstance(x[2], ast.Subscript) and isinstance(x[2].slice, ast.Constant)]
    if not ss:
        return
    for test, blk, place, other, hit, asg in ss:
        b = ast.unparse(place.value)
        good = {id(n) for x in ss if ast.unparse(x[2].value) == b for s in x[1] for n in ast.walk(s)}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and id(n) not in good:
                for t in records.targets_of(n):
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and ast.unparse(t.value) == b and t.slice.value != place.slice.value:
                        if any(n in k and any(storing(ast.unparse(place))(x) for x in k) for k in blocks(f.node)):
                            continue
                        res.add(Finding('value-without-solution', f, ast.unparse(t), '%s is recorded here whether or not %s improves' % (ast.unparse(t), ast.unparse(place)), n.lineno))


def plain(e):
    """arithmetic on variables"""
    return all(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('abs', 'len', 'max', 'min', 'sum', 'int', 'round') or isinstance(x, (ast.BinOp, ast.UnaryOp, ast.unaryop, ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.operator, ast.expr_context, ast.Tuple)) for x in ast.walk(e))


def run(ctx, fixture=False):
    res = Result()
    recorded = set()

    def hk(kind, I, node, kw):
        if kind == 'recorded':
            recorded.add(id(node))
    I = ctx.interp(hooks=[hk])
    ctx.run_all(I)
    for e in I.events.values():
        if e.kind == 'rmut':
            res.add(Finding('changed-after-recording', e.fn, construct(e.node), e.what, getattr(e.node, 'lineno', None)))
    res.count('objects_recorded', len(recorded))
    for f in ctx.proj.functions:
        if f.is_lambda:
            continue
        nested = {id(n) for g in ast.walk(f.node) if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not f.node for n in ast.walk(g)}
        root = f
        while root.parent is not None:
            root = root.parent
        syntactic(f, nested, root.node, res)
        slots(f, nested, res)
    table = {'rosemary/best.py': 'ok_pair ok_dicts bad_unguarded bad_before bad_setdefault'} if fixture else PAIRS
    for rel in sorted(table):
        for q in table[rel].split():
            f = ctx.find('%s:%s' % (rel, q))
            if f is None:
                res.count('names_not_found')
            else:
                pairs(f, res)
    return res


def construct(node):
    try:
        return ast.unparse(node)[:80]
    except Exception:
        return type(node).__name__


FIXTURE = 'p13'
EXPECT = [('changed-after-recording', n) for n in ('bad_alias.<locals>.go', 'bad_loop', 'bad_shared', 'bad_tuple', '_put', 'bad_flipped')] + [
    ('other-value-recorded', n) for n in ('bad_value', 'bad_offset')] + [
    ('value-without-solution', n) for n in ('bad_once', 'bad_branch', 'bad_lone', 'bad_unguarded', 'bad_before', 'bad_setdefault', 'bad_slot.<locals>.visit')]
