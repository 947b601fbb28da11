"""P01: no public call modifies the objects the caller passed in (in-place operations are tabulated)."""
from ..common import *

LEVEL = 'other'
EXPLANATION = ('Interprocedural alias/effect analysis over the syntax tree of every public function: each mutable object '
               'reachable from a parameter is an abstract object named by its access path; every store, deletion, augmented '
               'assignment and mutating container method in the function or in anything it calls is attributed to the '
               'abstract objects its target may denote.  A mutation of a parameter object that is not in the table of '
               'documented in-place operations is reported.')
RULES = ['param-mutated: a public function may modify an object reachable from a parameter (reported with the chain of call '
         'sites down to the mutating statement)']
ASSUMPTIONS = ['arguments have the documented types (table sa/specs.py); user-supplied callables and element objects do not '
               'modify the arguments themselves', 'advancing an iterator passed as an argument is not a modification']
MINIMUM = {'entry_points': 340, 'mutations_seen': 25}

# documented in-place operations: function -> parameters whose object may change
ALLOWED = {
    'Matrix.__setitem__': {'self'},
    'BITSieve.update': {'self'}, 'BITSieve.mark_multiples': {'self'}, 'BITSieveArray.mark_multiples': {'self'},
    'LeftistHeap.insert': {'self'}, 'LeftistHeap.delete_min': {'self'}, 'LeftistHeap.__iter__': {'self'},
    'LeftistHeap.merge': {'self', 'other'},
    'PairingHeap.insert': {'self'}, 'PairingHeap.insert_values': {'self'}, 'PairingHeap.insert_node': {'self', 'node'},
    'PairingHeap.decrease_key': {'self'}, 'PairingHeap.delete_min': {'self'},
    'UnionFind.find': {'self'}, 'UnionFind.union': {'self'},
    'NamedUnionFind.find': {'self'}, 'NamedUnionFind.union': {'self'},
    'Graph.add_vertex': {'self'}, 'Graph.add_vertices': {'self'}, 'Graph.add_edge': {'self'}, 'Graph.add_edges': {'self'},
    'Graph.delete_vertex': {'self'}, 'Graph.delete_vertices': {'self'}, 'Graph.delete_edge': {'self'},
}


def allowed(f, par):
    if f.name == '__init__' and f.cls is not None and par == f.params[0]:
        return True
    return par in ALLOWED.get(f.qual, ())


def judge(res, f, run):
    for o, (how, chain) in run.muts.items():
        if o.root != 'P':
            continue
        res.count('mutations_seen')
        par = o.key[1]
        if allowed(f, par):
            res.sample('tabulated_inplace', '%s %s' % (f.qual, path_str(o.key)), 60)
            continue
        site = chain[-1]
        res.add(Finding('param-mutated', f, par, 'may modify %s of its argument (%s at %s line %s)' % (
            path_str(o.key), how, site[0].fq, getattr(site[1], 'lineno', '?')), getattr(chain[0][1], 'lineno', None),
            ['%s line %s' % (c.fq, getattr(n, 'lineno', '?')) for c, n in chain]))


def run(ctx, fixture=False):
    res = Result()
    I, runs = ctx.default()
    for f, r in ctx.default_items():
        res.count('entry_points')
        judge(res, f, r)
        res.count('parameters', len(f.params) + len(f.kwonly))
    if ctx.tier == 'thorough' and not fixture:
        thorough(ctx, res)
    res.count('call_sites_resolved', I.calls_resolved)
    res.count('functions_reached', len(I.analysed))
    return res


def alt(I, f, how):
    """the documented types with every container argument of another kind"""
    out = []
    for p, sh in specs.param_shapes(I, f):
        if p != 'self':
            sh = _alt(sh, how)
        out.append((p, sh))
    return tuple(out)


def _alt(sh, how):
    if sh[0] == 'u':
        return ('u',) + tuple(_alt(x, how) for x in sh[1:])
    if sh[0] == 'o' and sh[1] in ('list', 'set', 'dict') and how == 'rgn':
        return specs.RGN
    if sh[0] == 'o' and sh[1] == 'list' and how == 'set':
        return ('o', 'set') + sh[2:]
    return sh


def thorough(ctx, res):
    for how in ('rgn', 'set'):
        I = ctx.interp()
        runs = ctx.run_all(I, None, lambda f: alt(I, f, how))
        for f, r in runs.items():
            res.count('entry_points_%s_arguments' % how)
            judge(res, f, r)
    I = ctx.interp(mode='inline', budget=3 * 10 ** 5)
    for f in ctx.api():
        I.steps = 0
        try:
            r = I.analyze(f)
        except Exception as e:
            res.count('inline_budget_exceeded')
            continue
        res.count('entry_points_inline')
        judge(res, f, r)


FIXTURE = 'p01'
EXPECT = [('param-mutated', n) for n in ('_drop', 'bad_sort', 'bad_nested', 'bad_helper', 'bad_aug', 'bad_closure', 'bad_heap', 'bad_gen')]
