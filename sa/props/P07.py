"""P07: no public call dies of a programming error."""
import ast
import itertools
from ..common import *

LEVEL = 'other'
EXPLANATION = ('Name, attribute, call-signature and operand-kind analysis of the resolved program.  Each public function is '
               'analysed for the documented argument types and once more for every combination of its optional arguments '
               'being absent or present and of its union-typed arguments, with empty and one-element containers as '
               'boundary cases.  At every visited operation the kinds of the operands are joined over all visits in that '
               'context; an operation none of whose operand kinds is legal, a name that is bound on no path reaching its '
               'use, an attribute that no definition provides, or a call that does not fit the signature is reported.')
RULES = ['undefined-name', 'unbound-local: a local variable is read on a path on which nothing has assigned it (in one of the '
         'analysed argument combinations no path assigns it)', 'missing-attribute', 'call-signature',
         'illegal-operands: every possible combination of operand kinds raises TypeError',
         'possibly-unbound: a local variable is read although some feasible path on which every enclosing loop has run assigns it nowhere',
         'unordered-entries: entries of a heap or a sort that tie on their first components and then differ in one that has no order (a dictionary, a node, a missing value)',
         'undefined-name-in-module: a name in any function body (reached or not) resolves to nothing']
ASSUMPTIONS = ['arguments have the documented types (sa/specs.py)',
               'operations inside a try whose handler catches the resulting error are not reported']
MINIMUM = {'entry_points': 340, 'operations_checked': 4000, 'names_resolved': 4000, 'contexts': 500, 'orderings_checked': 30}

CAP = 24


def alternatives(sh):
    """split a union shape; None, each object kind, scalars"""
    if sh[0] == 'u':
        out = []
        for x in sh[1:]:
            out.extend(alternatives(x))
        return out
    return [sh]


def contexts(I, f, tier):
    base = specs.param_shapes(I, f)
    alts = []
    for p, sh in base:
        a = alternatives(sh) if sh[0] == 'u' and sh != ('u', specs.U, specs.RGN) else [sh]
        alts.append(a if len(a) <= 4 else [sh])
    names = [p for p, _ in base]
    seen = []
    n = 1
    for a in alts:
        n *= len(a)
    if n > 1:
        for combo in itertools.islice(itertools.product(*alts), CAP):
            seen.append(tuple(zip(names, combo)))
    # boundary contexts: empty / one-element containers
    for i, (p, sh) in enumerate(base):
        if p == 'self':
            continue
        for a in alternatives(sh):
            if a[0] == 'o' and a[1] in ('list', 'set', 'tuple', 'dict') and a[3] is None and a[4] is not None:
                for k in (0, 1):
                    if a[1] == 'dict':
                        if k:
                            continue
                        b = ('o', 'dict', None, (), None, None)
                    else:
                        b = ('o', a[1], a[2], (a[4],) * k, None, a[5])
                    seen.append(base[:i] + ((p, b),) + base[i + 1:])
            elif a == specs.INT_S and tier == 'thorough':
                for k in (0, 1, 2, 3):
                    seen.append(base[:i] + ((p, ('v', vconst(k))),) + base[i + 1:])
    return seen


def bad_none(ctx):
    """both the number and its factorization missing: rejected by documentation (P08), not a legal combination"""
    d = dict(ctx)
    return 'factorization' in d and d['factorization'] == ('v', NONE) and d.get('n') == ('v', NONE)


# ------------------------------------------------------------------------------------------ operand kinds
OPAQUE = ('rgn', 'lib', 'ext', 'extattr', 'bmeth', 'pmeth', 'builtin', '?')
NUMK = ('int', 'bool', 'float')


def kinds(v):
    """list of (kind, data) or None when something is unknown"""
    if v.u or v.is_bot():
        return None
    out = []
    if v.n:
        out.append(('None', None))
    if v.b:
        out.append(('bool', None))
    if v.i is not None:
        out.append(('int', None))
    if v.f is not None:
        out.append(('float', None))
    if v.s is not None:
        out.append(('str', None))
    for o in v.o:
        if o.kind in ('rgn', 'lib', 'ext', 'extattr', 'bmeth', 'pmeth', 'builtin'):
            return None
        out.append((o.kind, o.data))
    return out


class Kinds(object):
    def __init__(self, proj, run_dunder):
        self.proj = proj
        self.D = run_dunder

    def binop(self, op, a, b):
        (ka, da), (kb, db) = a, b
        T = type(op)
        if ka == 'inst' or kb == 'inst':
            for k, d, nm in ((ka, da, '__%s__'), (kb, db, '__r%s__')):
                if k == 'inst':
                    if not hasattr(d, 'methods') or self.proj.has_unknown_base(d) or self.proj.find_method(d, nm % self.D[T]):
                        return True
            return False
        if ka in NUMK and kb in NUMK:
            if T in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
                return ka != 'float' and kb != 'float'
            return True
        if ka == 'str':
            return T is ast.Mod or (T is ast.Add and kb == 'str') or (T is ast.Mult and kb in ('int', 'bool'))
        SEQ = ('list', 'tuple', 'deque', 'bytearray')
        if T is ast.Mult:
            return (ka in SEQ and kb in ('int', 'bool')) or (kb in SEQ + ('str',) and ka in ('int', 'bool'))
        if T is ast.Add:
            return (ka in SEQ and kb == ka) or (ka == 'dict' and kb == 'dict')
        if T in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            return ka in ('set', 'frozenset', 'view', 'dict') and kb in ('set', 'frozenset', 'view', 'dict', 'list', 'tuple', 'gen', 'iter')
        return False

    def order(self, a, b):
        (ka, da), (kb, db) = a, b
        if ka in NUMK and kb in NUMK:
            return True
        if 'inst' in (ka, kb):
            return True
        return ka == kb and ka in ('str', 'list', 'tuple', 'set', 'frozenset', 'deque', 'bytearray') or \
            ({ka, kb} <= {'set', 'frozenset', 'view'})


ITERABLE = ('list', 'dict', 'set', 'tuple', 'deque', 'gen', 'iter', 'view', 'range', 'bytearray', 'frozenset', 'str')


def illegal(K, role, node, vals):
    if role == 'binop':
        ka, kb = kinds(vals[0]), kinds(vals[1])
        if ka is None or kb is None:
            return None
        if not any(K.binop(node.op, a, b) for a in ka for b in kb):
            return '%s %s %s' % (names(ka), type(node.op).__name__, names(kb))
    elif role in ('cmp:Lt', 'cmp:LtE', 'cmp:Gt', 'cmp:GtE'):
        ka, kb = kinds(vals[0]), kinds(vals[1])
        if ka is None or kb is None:
            return None
        if not any(K.order(a, b) for a in ka for b in kb):
            return 'ordering %s against %s' % (names(ka), names(kb))
    elif role in ('cmp:In', 'cmp:NotIn'):
        kb = kinds(vals[1])
        if kb is not None and all(k in ('None', 'bool', 'int', 'float', 'func', 'class') for k, d in kb):
            return 'membership in %s' % names(kb)
    elif role in ('sub', 'store'):
        ka = kinds(vals[0])
        if ka is None:
            return None
        bad = ('None', 'bool', 'int', 'float', 'set', 'gen', 'func', 'frozenset') + (('tuple', 'str') if role == 'store' else ())
        m = '__getitem__' if role == 'sub' else '__setitem__'
        if all(k in bad or (k == 'inst' and hasattr(d, 'methods') and not K.proj.has_unknown_base(d) and not K.proj.find_method(d, m))
               for k, d in ka):
            return 'subscript of %s' % names(ka)
        if all(k == 'dict' for k, d in ka):
            kk = kinds(vals[1])
            if kk is not None and all(k in ('list', 'dict', 'set', 'deque', 'bytearray') for k, d in kk):
                return 'unhashable key %s' % names(kk)
    elif role == 'iter':
        ka = kinds(vals[0])
        if ka is not None and all(k in ('None', 'bool', 'int', 'float', 'func') for k, d in ka):
            return 'iteration over %s' % names(ka)
    elif role == 'unpack':
        ka = kinds(vals[0])
        if ka is not None and all(k in ('None', 'bool', 'int', 'float', 'func') for k, d in ka):
            return 'unpacking of %s' % names(ka)
    elif role == 'call':
        ka = kinds(vals[0])
        if ka is not None and all(k in ('None', 'bool', 'int', 'float', 'str', 'list', 'dict', 'set', 'tuple', 'gen', 'deque') for k, d in ka):
            return 'call of %s' % names(ka)
    elif role == 'attr':
        ka = kinds(vals[0])
        if ka is not None and all(k == 'None' for k, d in ka):
            return 'attribute %s of None' % node.attr
        py = {'int': int, 'bool': bool, 'float': float, 'str': str}
        if ka is not None and all(k in py and not hasattr(py[k], node.attr) or k == 'None' for k, d in ka):
            return 'attribute %s of %s' % (node.attr, names(ka))
    return None


def names(ks):
    return '/'.join(sorted({k if k != 'inst' else getattr(d, 'name', 'object') for k, d in ks}))


def text(node):
    try:
        return ast.unparse(node).split('\n')[0][:90]
    except Exception:
        return type(node).__name__


def ctx_text(ctxkey):
    out = []
    for p, sh in ctxkey[1]:
        if p == 'self':
            continue
        out.append('%s=%s' % (p, shtext(sh)))
    return ', '.join(out)[:200]


def shtext(sh):
    if sh[0] == 'v':
        return repr(sh[1])
    if sh[0] == 'u':
        return '(' + '|'.join(shtext(x) for x in sh[1:]) + ')'
    if sh[0] == 'o':
        if sh[3] is not None:
            return '%s(%s)' % (sh[1], ', '.join(shtext(x) for x in sh[3]))
        return sh[1]
    return str(sh[0])


EVK = {'noattr': 'missing-attribute', 'contattr': 'missing-attribute', 'noname': 'undefined-name', 'arity': 'call-signature'}


# functions with a search loop that finds an element for reasons of value (not decided here): outermost function -> presumption
PRESUMED = {
    'rosemary/combinatorics/optimization/exact_cover.py:sudoku_dlx': 'every set of a sudoku cover has one "O" and one "C" element',
    'rosemary/combinatorics/optimization/knapsack.py:branch_and_bound_depth_first': 'the choices are empty when no item is left',
    'rosemary/combinatorics/optimization/tsp.py:steepest_ascent_two_opt': 'a positive gain has been recorded together with its position',
    'rosemary/combinatorics/optimization/tsp.py:two_opt': 'a positive gain has been recorded together with its position',
    'rosemary/graphs/algorithms/cliques.py:ostergard': 'a nonempty candidate set contains a vertex of the remaining order',
    'rosemary/graphs/algorithms/cliques.py:pardalos': 'a nonempty candidate set contains a vertex of the remaining order',
    'rosemary/graphs/algorithms/cliques.py:maximum_weight_clique': 'a nonempty candidate set contains a vertex of the remaining order',
    'rosemary/graphs/algorithms/coloring.py:korman': 'a color is free for the vertex considered',
    'rosemary/graphs/algorithms/independent_sets.py:branch_and_bound': 'a nonempty candidate set contains a vertex of the remaining order',
    'rosemary/graphs/algorithms/steiner_trees.py:minimum_cost_paths_heuristic': 'the terminals are connected',
}


def presumed(ctx, I, fn):
    """the presumption for fn, or for the functions that alone call it"""
    seen, todo, why = set(), [fn], None
    while todo:
        f = todo.pop()
        while f.parent is not None:
            f = f.parent
        if f in seen:
            continue
        seen.add(f)
        if f.fq in PRESUMED:
            why = PRESUMED[f.fq]
            continue
        callers = [g for g, cs in I.edges.items() if f in cs]
        if not callers or f in ctx.api():
            return None
        todo.extend(callers)
    return why


def collect(ctx, res, I, fixture):
    K = Kinds(ctx.proj, __import__('sa.run', fromlist=['Run']).Run.DUNDER)
    for e in I.events.values():
        if e.kind in EVK:
            res.add(Finding(EVK[e.kind], e.fn, '%s: %s' % (text(e.node), e.what), '%s: %s' % (text(e.node), e.what),
                            getattr(e.node, 'lineno', None)))
        elif e.kind == 'unbound':
            why = presumed(ctx, I, e.fn)
            if why is not None:
                res.count('reads_resting_on_a_presumption')
                res.sample('presumptions', '%s line %s, %s: %s' % (e.fn.fq, e.node.lineno, e.what, why))
                continue
            res.add(Finding('possibly-unbound', e.fn, e.what, 'local variable %s may be read unassigned: some path that reaches this read, and on which the '
                            'enclosing loops run at least once, assigns it nowhere' % e.what, e.node.lineno))
    for (ck, role, node), (fn, vals, _) in I.uses.items():
        res.count('operations_checked')
        w = illegal(K, role, node, vals)
        if w:
            res.add(Finding('illegal-operands', fn, '%s: %s' % (text(node), w), '%s in `%s` (analysed with %s)' % (w, text(node), ctx_text(ck)),
                            getattr(node, 'lineno', None)))
    for (ck, node), (fn, why) in I.entries.items():
        res.count('orderings_checked')
        if why:
            res.add(Finding('unordered-entries', fn, '%s: %s' % (text(node), why), '`%s` compares entries that tie on what comes first and then cannot be '
                            'put in order (%s; analysed with %s)' % (text(node), why, ctx_text(ck)), getattr(node, 'lineno', None)))
    for (ck, node), (fn, st) in I.loads.items():
        res.count('local_reads_checked')
        if st == {'hard'}:
            res.add(Finding('unbound-local', fn, node.id, 'local variable %s is read before anything assigns it (analysed with %s)' % (
                node.id, ctx_text(ck)), node.lineno))


def module_names(ctx, res):
    """every name in every function body of the library resolves (also in code no entry point reaches)"""
    for f in ctx.proj.functions:
        own = set(f.params) | set(f.kwonly) | {f.vararg, f.kwarg}
        comp = set()
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        nested = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node:
                    for m in ast.walk(n):
                        if m is not n:
                            nested.add(m)
                if isinstance(n, ast.comprehension):
                    for m in ast.walk(n.target):
                        if isinstance(m, ast.Name):
                            comp.add(m.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    comp.add(n.name)
        for s in body:
            for n in ast.walk(s):
                if n in nested or not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load):
                    continue
                res.count('names_resolved')
                if n.id in own or n.id in comp or n.id in f.locals:
                    continue
                g, ok = f.parent, False
                while g is not None:
                    if n.id in g.locals or n.id in g.params:
                        ok = True
                    g = g.parent
                if ok or ctx.proj.resolve(f.module, n.id) is not None or n.id in ('__class__',):
                    continue
                res.add(Finding('undefined-name', f, '%s: %s' % (n.id, n.id), 'name %s is not defined anywhere' % n.id, n.lineno))


def run(ctx, fixture=False):
    res = Result()
    I = ctx.interp()
    I.uses = {}
    for f in ctx.api():
        res.count('entry_points')
        todo = [specs.param_shapes(I, f)] + specs.extra_contexts(I, f)
        for c in contexts(I, f, ctx.tier):
            if not bad_none(c) and c not in todo:
                todo.append(c)
        for c in todo:
            res.count('contexts')
            try:
                I.analyze(f, c)
            except Exception as e:
                ctx.failures[f.fq] = '%s: %s' % (type(e).__name__, e)
    collect(ctx, res, I, fixture)
    module_names(ctx, res)
    res.count('call_sites_resolved', I.calls_resolved)
    return res


FIXTURE = 'p07'
EXPECT = [('call-signature', 'bad_arity'), ('call-signature', 'bad_builtin_arity'), ('illegal-operands', 'bad_iter'),
          ('illegal-operands', 'bad_none'), ('illegal-operands', 'bad_operands'), ('missing-attribute', 'Box.bad_attr'),
          ('missing-attribute', 'Box.bad_method'), ('unbound-local', 'bad_unbound'), ('undefined-name', 'bad_name'),
          ('missing-attribute', 'bad_module_attr'), ('unbound-local', 'bad_empty'), ('unbound-local', 'bad_search'), ('possibly-unbound', 'bad_search'), ('possibly-unbound', 'bad_branch'),
          ('unordered-entries', 'bad_heap'), ('unordered-entries', 'bad_sort')]
