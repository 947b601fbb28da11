"""P02: results and stored state do not share mutable structure with arguments, receivers, tables or defaults."""
from ..common import *

LEVEL = 'other'
EXPLANATION = ('Escape analysis on the abstract heap at every exit of every public function: the objects reachable from the '
               'returned or yielded value, and the objects newly stored into a parameter, are enumerated; a mutable object '
               'that also belongs to an argument, to the receiver, to a module-level table or to a default value is reported.')
RULES = ['returned-alias: the result of a public function reaches a mutable object owned by an argument, the receiver, a '
         'module-level table or a default argument',
         'stored-alias: a constructor or method keeps a reference to a mutable container the caller passed in']
ASSUMPTIONS = ['arguments have the documented types (table sa/specs.py)',
               'elements supplied by the caller (vertices, keys, callers own sets handed to an exact-cover solver) may be handed back as they are']
MINIMUM = {'entry_points': 340, 'objects_followed': 300}

# function -> (roots/paths that may be handed out, reason)
ALLOWED = {
    'Matrix.__getitem__': 'M[i] is the documented accessor of a row',
    'Graph.__getitem__': 'G[u] is the documented accessor of the neighbour mapping',
    'algorithmx': 'yields the callers own sets', 'algorithm_dlx': 'yields the callers own sets',
    'ExactCover.__init__': 'none',
    'Polynomial.pseudo_quo_rem': 'Polynomial objects are immutable',
    'TravelingSalesman.__init__': 'keeps the point list it was built from',
}
NODES = ('_LeftistHeapNode', '_PairingHeapNode', 'LeftistHeap', 'PairingHeap')
IMMUTABLE_CLASSES = ('Polynomial', 'PolyZZ', 'MatrixZZ')


def heap_fn(f):
    return f.module.relpath.endswith('data_structures/heaps.py')


def roots_of(res, r):
    """(object, kinds passed through) for foreign mutable objects reachable from the result"""
    seen, out = set(), []
    todo = [(o, ()) for o in list(r.ret.o) + list(r.yields.o)]
    while todo:
        o, path = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        res.count('objects_followed')
        if o.root in ('P', 'G', 'D'):
            if o.kind in ('list', 'dict', 'set', 'deque', 'bytearray', 'view') or \
                    (o.kind == 'inst' and getattr(o.data, 'name', '') not in IMMUTABLE_CLASSES):
                out.append((o, path))
                continue
            if o.kind != 'tuple':
                continue
        c = r.final_store.get(o)
        if c is None and o.root in ('P', 'G', 'D'):
            c = r.lazy.get(o)
        if c is None:
            continue
        for v in r.cont_vals(c):
            todo.extend((x, path + (o.kind,)) for x in v.o)
        if o.kind == 'view' or o.kind in ('bmeth', 'pmeth'):
            todo.extend((x, path + (o.kind,)) for x in o.key if isinstance(x, Obj))
    return out


def run(ctx, fixture=False):
    res = Result()
    I, runs = ctx.default()
    for f, r in ctx.default_items():
        res.count('entry_points')
        I.run = r
        if r.ret.u or r.yields.u:
            res.count('results_partly_unknown')
        if f.name in ('__init__',):
            pass
        else:
            for o, path in roots_of(res, r):
                if f.qual in ALLOWED or heap_fn(f):
                    res.sample('tabulated_accessors', '%s %s' % (f.qual, path_str(o.key)))
                    continue
                what = path_str(o.key) if o.root == 'P' else '%s %s' % ({'G': 'module-level object', 'D': 'default value'}[o.root], o.key[1:])
                res.add(Finding('returned-alias', f, what, 'the result shares the mutable %s %s%s' % (
                    o.kind, what, ' (inside %s)' % '/'.join(path) if path else '')))
        for o, c in r.final_p().items():
            base = r.lazy.get(o, EMPTY)
            if c == base:
                continue
            basev = set()
            for v in r.cont_vals(base):
                basev |= v.o
            for v in r.cont_vals(c):
                for x in v.o - basev:
                    stored(res, f, r, o, x)
    return res


def stored(res, f, r, o, x, depth=0):
    if heap_fn(f) or f.qual in ALLOWED or depth > 4:
        return
    if x.root in ('P', 'G', 'D'):
        if x.kind in ('list', 'dict', 'set', 'deque', 'bytearray') and x.key[1] != o.key[1]:
            what = '%s <- %s' % (path_str(o.key), path_str(x.key))
            res.add(Finding('stored-alias', f, what, 'keeps a reference to the callers %s %s inside %s' % (
                x.kind, path_str(x.key), path_str(o.key))))
        return
    c = r.final_store.get(x)
    if c is None or x.kind not in ('list', 'dict', 'set', 'tuple', 'deque', 'inst'):
        return
    res.count('objects_followed')
    for v in r.cont_vals(c):
        for y in v.o:
            if y != x:
                stored(res, f, r, o, y, depth + 1)


FIXTURE = 'p02'
EXPECT = [('stored-alias', 'Box.__init__'), ('returned-alias', 'Box.bad_entries'), ('returned-alias', 'Grid.bad_rows'),
          ('returned-alias', 'bad_arg'), ('returned-alias', 'bad_table'), ('returned-alias', 'bad_default'), ('returned-alias', 'bad_gen')]
