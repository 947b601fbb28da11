"""P03: a generator never modifies an object after handing it out."""
from ..common import *

LEVEL = 'other'
EXPLANATION = ('Flow-sensitive typestate over abstract objects: every mutable object reachable from a yielded value becomes '
               'handed-out at the yield; a store, deletion, augmented assignment or mutating method on a handed-out object '
               'on any later path of the generator (loop back edges included, nested generators and helpers analysed in '
               'line or by summary) is reported.  Recency abstraction keeps the object built in the current iteration '
               'apart from those built before.')
RULES = ['modified-after-yield: an object already yielded may be modified before the generator finishes']
ASSUMPTIONS = ['consumers of internal generators inside the library are analysed with the generator run to each yield']
MINIMUM = {'generators': 20, 'yield_sites': 25}


def run(ctx, fixture=False):
    res = Result()
    sites = {}

    def hk(kind, I, node, kw):
        if kind == 'yield':
            sites[id(node)] = node
    I = ctx.interp(hooks=[hk])
    runs = ctx.run_all(I)
    todo = [(I, runs)]
    if ctx.tier == 'thorough' and not fixture:
        J = ctx.interp(hooks=[hk])
        ents = [f for f in ctx.proj.functions if f.parent is None and not f.is_lambda]
        todo.append((J, ctx.run_all(J, ents)))
        K = ctx.interp(mode='inline')
        todo.append((K, ctx.run_all(K, [f for f in ctx.api() if f.is_gen])))
    for J, rs in todo:
        for f in J.analysed:
            if f.is_gen:
                res.count('generators' if J is I else 'generators_further_contexts')
        for e in J.events.values():
            if e.kind == 'ymut':
                res.add(Finding('modified-after-yield', e.fn, construct(e.node), e.what, getattr(e.node, 'lineno', None)))
    res.count('yield_sites', len(sites))
    res.count('nested_generators', sum(1 for f in I.analysed if f.is_gen and f.parent is not None))
    return res


def construct(node):
    import ast
    try:
        return ast.unparse(node)[:80]
    except Exception:
        return type(node).__name__


FIXTURE = 'p03'
EXPECT = [('modified-after-yield', n) for n in ('bad_loop', 'bad_clear', 'bad_nested.<locals>.go', 'bad_row', 'bad_set')]
