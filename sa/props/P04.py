"""P04: no call leaves behind state that a later call can see."""
import ast
from ..common import *

LEVEL = 'other'
EXPLANATION = ('Effect analysis: every store reachable from a public function is attributed to abstract objects; a store into '
               'an object rooted at a module-level name, a class attribute, a function attribute or a default argument value, '
               'an assignment to a global name, or the advancing of a module-level iterator, is reported.  Functions wrapped '
               'by a memoising decorator are allowed when everything they return is immutable and they do not draw random numbers.')
RULES = ['global-state: a public call may change a module-level object, class attribute, function attribute or default value',
         'global-assign: a public call assigns a global name', 'shared-iterator: a public call advances a module-level iterator',
         'memo-mutable: a memoised function returns a mutable object', 'memo-random: a memoised function draws random numbers',
         'memo-key: the memoising wrapper does not key on all positional arguments']
ASSUMPTIONS = ['the state of the shared pseudo-random generator is outside this property (see P05)']
MINIMUM = {'entry_points': 340, 'stores_attributed': 500, 'module_level_tables': 1}
MEMO_LIB = ('cached_function',)
MEMO_EXT = ('lru_cache', 'cache', 'cached_property')


def memo_decorator(proj, f):
    for d in f.decorators:
        d = d.func if isinstance(d, ast.Call) else d
        nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if nm in MEMO_LIB + MEMO_EXT:
            return nm
    for m in proj.modules.values():
        for k, v in m.assigned.items():
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in MEMO_LIB + MEMO_EXT and v.args and \
                    isinstance(v.args[0], ast.Name):
                r = proj.resolve(m, v.args[0].id)
                if r and r[0] == 'func' and r[1] is f:
                    return v.func.id
    return None


def desc(o):
    if o.root == 'D':
        return 'default value of parameter %s of %s' % (o.key[2], o.key[1])
    return '.'.join(str(x) for x in o.key[1:])


def run(ctx, fixture=False):
    res = Result()
    rnd = set()

    def hk(kind, I, node, kw):
        if kind in ('mutate', 'setattr'):
            res.count('stores_attributed')
        elif kind in ('iter', 'compiter', 'advance'):
            v = kw.get('iterval')
            for o in (v.o if v is not None else ()):
                if o.root == 'G' and o.kind in ('iter', 'gen'):
                    fn = I.run.frame.fn
                    res.add(Finding('shared-iterator', fn, desc(o), 'advances the module-level iterator %s' % desc(o), getattr(node, 'lineno', None)))
        elif kind == 'ext' and kw.get('mod') == 'random':
            rnd.add(I.run.frame.fn)
    I = ctx.interp(hooks=[hk])
    runs = ctx.run_all(I)
    ints = [I]
    if ctx.tier == 'thorough' and not fixture:
        J = ctx.interp(hooks=[hk])
        ctx.run_all(J, [f for f in ctx.proj.functions if f.parent is None and not f.is_lambda])
        K = ctx.interp(mode='inline', hooks=[hk])
        ctx.run_all(K)
        ints += [J, K]
    for J in ints:
        for e in J.events.values():
            if e.kind == 'gmut':
                o = e.extra
                res.add(Finding('global-state', e.fn, desc(o) if o.root in ('G', 'D') else str(getattr(o.data, 'name', o.data)),
                                'changes state shared between calls: %s' % e.what, getattr(e.node, 'lineno', None)))
            elif e.kind == 'gwrite':
                res.add(Finding('global-assign', e.fn, e.what, e.what, getattr(e.node, 'lineno', None)))
    for f, r in runs.items():
        res.count('entry_points')
    for f in ctx.proj.functions:
        if f.is_lambda or f.parent is not None:
            continue
        nm = memo_decorator(ctx.proj, f)
        if nm is None:
            continue
        res.count('memoised_functions')
        r = runs.get(f) or I.analyze(f)
        bad = sorted({o.kind for o in r.ret.o if o.kind in MUTABLE}) + (['generator'] if f.is_gen else [])
        if bad:
            res.add(Finding('memo-mutable', f, '/'.join(bad), 'cached between calls, but may return a mutable %s' % '/'.join(bad), f.node.lineno))
        if reaches(I, f, rnd):
            res.add(Finding('memo-random', f, 'random', 'cached between calls, but draws random numbers', f.node.lineno))
    for m in ctx.proj.modules.values():
        for k, v in m.assigned.items():
            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)) and not m.is_pkg:
                res.count('module_level_tables')
                res.sample('module_level_tables', '%s.%s' % (m.name, k))
    memo_key(ctx, res, fixture)
    return res


def memo_key(ctx, res, fixture):
    """the wrapper must look the result up, and store it, under the whole argument tuple"""
    for f in ctx.proj.functions:
        if f.name not in MEMO_LIB or f.parent is not None:
            continue
        res.count('memo_wrappers')
        inner = [g for g in ctx.proj.functions if g.parent is f and not g.is_lambda]
        for g in inner:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in f.locals:
                    names = {x.id for x in ast.walk(n.slice) if isinstance(x, ast.Name)}
                    whole = full_names(g)
                    if isinstance(n.slice, ast.Name) and n.slice.id in whole:
                        res.count('memo_key_sites')
                        continue
                    if isinstance(n.slice, ast.Tuple) and any(isinstance(x, ast.Name) and x.id in whole for x in n.slice.elts):
                        res.count('memo_key_sites')
                        continue
                    res.add(Finding('memo-key', g, ast.unparse(n.slice), 'memo table %s is keyed by %s, not by all positional arguments' % (
                        n.value.id, ast.unparse(n.slice)), n.lineno))


def full_names(g):
    """names that hold the whole argument tuple"""
    out = {g.vararg} if g.vararg else set()
    ch = True
    while ch:
        ch = False
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in out:
                v = n.value
                if (isinstance(v, ast.Name) and v.id in out) or (isinstance(v, ast.Tuple) and any(isinstance(x, ast.Name) and x.id in out for x in v.elts)) \
                        or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'tuple' and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id in out):
                    out.add(n.targets[0].id)
                    ch = True
    return out


def reaches(I, f, targets):
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        if g in targets:
            return True
        todo.extend(I.edges.get(g, ()))
        todo.extend(h for h in I.analysed if h.parent is g)
    return False


FIXTURE = 'p04'
EXPECT = [('global-state', 'bad_cache'), ('global-state', 'bad_default'), ('global-state', 'bad_attr'), ('global-state', 'Box.bad_count'),
          ('global-state', 'Box.bad_list'), ('global-assign', 'bad_global'), ('shared-iterator', 'bad_iter'), ('memo-mutable', 'bad_memo'),
          ('memo-random', 'bad_rand'), ('memo-key', 'cached_function.<locals>.wrap'), ('global-state', '_remember')]
