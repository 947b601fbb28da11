"""P14: every public operation gives a result of its documented kind on every path."""
import re

from ..common import *
from ..absval import CONTAINER
from ..answers import container
from ..tables.results import KINDS

LEVEL = 'other'
EXPLANATION = ('Flow-sensitive kind inference by abstract interpretation over the documented argument types: for every public operation of the '
               'committed table (sa/tables/results.py, the documented kind of result, per option value where an option changes it) the value at '
               'every return statement, at the end of the body, and the join of the values yielded, is compared with the documented kind, '
               'element kinds, dict keys and values and tuple arities included.  Parts of a value that come from the caller (vertices, labels, weights) '
               'or that the analysis does not follow are not judged.')
RULES = ['wrong-kind: a return statement (or yield) gives a value whose kind is not documented (a float where an integer is documented, a generator '
         'or set where a list is documented, a pair in the other order or of the wrong length, elements of another kind)',
         'missing-result: a return statement gives None, a bare return is reached, or the body can end without a return, in an operation documented '
         'to give a value',
         'no-result: no path of the operation returns at all']
ASSUMPTIONS = ['arguments have the documented types', 'None, False or infinity joined with documented kinds in one variable are taken to be initial '
               'values that are overwritten', 'the loops over the listed operations in sa/props/P14.py (ENDLESS) end through their return statement']
MINIMUM = {'operations': 280, 'ways_out': 300}

# loops `while True` aside, these bodies end in a loop whose exhaustion number theory excludes: a fall through is not judged
ENDLESS = frozenset(['chartres', 'primitive_root', 'multiplicative_order', 'pell_fundamental_solution', 'PellEquation.resolvent_solution',
                     'LeftistHeap.delete_min', 'LeftistHeap.find_min', 'cfrac'])

TOK = re.compile(r'\s*([\[\](){},:|?]|[A-Za-z_][A-Za-z_0-9]*)')
CONT = {'list': ('list',), 'set': ('set', 'frozenset'), 'gen': ('gen', 'iter'), 'dict': ('dict',), 'tuple': ('tuple',)}


class Parser(object):
    def __init__(self, s):
        self.t = TOK.findall(s)
        self.k = 0

    def peek(self):
        return self.t[self.k] if self.k < len(self.t) else None

    def next(self, want=None):
        t = self.peek()
        if want is not None and t != want:
            raise ValueError('result table: expected %r, found %r in %r' % (want, t, self.t))
        self.k += 1
        return t

    def alt(self):
        out = [self.one()]
        while self.peek() == '|':
            self.next()
            out.append(self.one())
        return out

    def one(self):
        t = self.next()
        if t == '(':
            items = []
            while self.peek() != ')':
                items.append(self.alt())
                if self.peek() == ',':
                    self.next()
            self.next(')')
            return ('tup', items)
        if t in CONT:
            if self.peek() != '[':
                return ('cont', t, None, None)
            self.next('[')
            a = self.alt()
            b = None
            if self.peek() == ':':
                self.next()
                b = self.alt()
            self.next(']')
            return ('cont', t, a, b)
        return ('name', t)


def parse(s):
    p = Parser(s)
    r = p.alt()
    if p.peek() is not None:
        raise ValueError('result table: %r' % s)
    return r


def names(spec):
    return {s[1] for s in spec if s[0] == 'name'}


def is_inf(f):
    return f is not None and f[0] == f[1] and f[0] in (float('inf'), float('-inf'))


def mismatch(run, st, v, spec, top=True, depth=0):
    """text describing the part of v that spec does not document, or None"""
    if depth > 6 or v.is_bot():
        return None
    ns = names(spec)
    any_ = '?' in ns
    parts = sum([v.n, bool(v.b), v.i is not None, v.f is not None, v.s is not None, v.u, bool(v.o), v.ub])
    alone = parts == 1
    if v.n and 'None' not in ns and not any_ and alone:
        return 'None'
    if any_ and depth and not ns - {'?', 'None'} and (not v.u or 'opaque' in v.t):
        # only the caller's own values belong here
        if v.i is not None or v.f is not None:
            return 'a number'
        for o in v.o:
            if o.kind in CONTAINER and len(spec) == len([s for s in spec if s[0] == 'name']):
                return 'a %s' % o.kind
    if any_ and v.u:
        return None
    if 'opaque' in v.t and v.u:
        return 'a value of the caller\'s own (a vertex, a label)'
    if v.b and not any_ and not ns & {'bool'} and alone and top:
        return {1: 'False', 2: 'True', 3: 'a bool'}[v.b]
    if v.i is not None and not ns & {'int', 'num', '?'}:
        return 'an int'
    if v.f is not None and not ns & {'float', 'num', '?'} and not (is_inf(v.f) and not alone):
        return 'a float'
    if v.s is not None and not ns & {'str', '?'}:
        return 'a str'
    for o in v.o:
        w = obj_mismatch(run, st, o, spec, ns, any_, depth)
        if w is not None:
            return w
    return None


def obj_mismatch(run, st, o, spec, ns, any_, depth):
    if o.kind == 'rgn' or any_:
        return None
    if o.kind == 'inst':
        cls = o.data
        if not hasattr(cls, 'name'):
            return None
        known = {c.name for c in run.I.proj.mro(cls)} | {cls.name}
        return None if known & ns else 'an instance of %s' % cls.name
    if o.kind not in CONTAINER:
        return None if o.kind in ('ext', 'lib', 'extattr') else 'a %s' % o.kind
    alts = [s for s in spec if s[0] == 'cont' and o.kind in CONT[s[1]] or s[0] == 'tup' and o.kind == 'tuple']
    if not alts:
        if o.kind == 'frozenset' or o.kind in CONT and o.kind == 'view':
            return None
        return 'a %s' % {'iter': 'one-shot iterator', 'gen': 'generator', 'view': 'dict view'}.get(o.kind, o.kind)
    c = container(run, st, o)
    if c is None:
        return None
    why = None
    for a in alts:
        w = None
        if a[0] == 'tup':
            if c.ex is None:
                lo, hi = c.length()
                if lo > len(a[1]) or (hi is not None and hi < len(a[1])):
                    w = 'a tuple of %s..%s elements' % (lo, 'any number' if hi is None else hi)
            elif len(c.ex) != len(a[1]):
                w = 'a tuple of %d elements' % len(c.ex)
            else:
                for k, (x, s) in enumerate(zip(c.ex, a[1])):
                    w = mismatch(run, st, x, s, False, depth + 1)
                    if w is not None:
                        w = 'a tuple whose item %d is %s' % (k, w)
                        break
        else:
            if a[1] == 'dict' and a[2] is not None:
                w = mismatch(run, st, c.k, a[2], False, depth + 1)
                if w is not None:
                    w = 'a dict with a key that is %s' % w
                else:
                    w = mismatch(run, st, c.elems(), a[3], False, depth + 1)
                    w = None if w is None else 'a dict with a value that is %s' % w
            elif a[2] is not None:
                w = mismatch(run, st, c.elems(), a[2], False, depth + 1)
                w = None if w is None else 'a %s with an element that is %s' % (o.kind, w)
        if w is None:
            return None
        why = w
    return why


def own_values(ctx, mode):
    """interpreter in which the caller's own values (vertices, labels, keys) are marked, those inside graphs included"""
    I = ctx.interp(mode=mode)
    I.opaque = True
    g = I.proj_class('Graph')
    if g is not None:
        fields = I.class_fields(g)
        for name, sh in list(fields.items()):
            # vertex -> vertex -> weight
            if sh[:2] == ('o', 'dict') and sh[5] == specs.U and sh[4] and sh[4][:2] == ('o', 'dict') and sh[4][5] == specs.U:
                own = ('v', OPAQUE)
                fields[name] = specs.D(own, specs.D(own, specs.NUM))
    return I


def entries(ctx, table):
    for rel in sorted(table):
        for q in sorted(table[rel]):
            name, _, opt = q.partition('(')
            opts = {}
            for part in opt.rstrip(')').split(',') if opt else []:
                p, _, b = part.partition('=')
                b = b.strip()
                opts[p.strip()] = specs.PAIRS if b == 'PAIRS' else ('v', vconst({'True': True, 'False': False}.get(b) if b in ('True', 'False') else int(b)))
            yield rel, name, opts, opt.rstrip(')'), table[rel][q]


def judge(run, f, spec, text, res, what):
    res.count('operations')
    res.sample('operations', '%s: %s' % (what, text))
    if f.is_gen:
        top = [s for s in spec if s[0] == 'cont' and s[1] == 'gen']
        if not top:
            # documented as a list (or another kind): a generator function no longer gives it
            res.add(Finding('wrong-kind', f, what, '%s is a generator function, the documented result is %s' % (what, text), f.node.lineno))
            return
        res.count('ways_out')
        if run.exit is None and run.yields.is_bot():
            return
        for s in top:
            if s[2] is None:
                return
            st = run.exit
            w = mismatch(run, st, run.yields, s[2], False) if st is not None else None
            if w is not None:
                res.add(Finding('wrong-kind', f, what, '%s may yield %s, the documented result is %s' % (what, w, text), f.node.lineno))
        return
    if run.exit is None:
        if run.raises:
            res.add(Finding('no-result', f, what, '%s never returns: every path raises (%s)' % (what, ', '.join(sorted(run.raises))), f.node.lineno))
        return
    ns = names(spec)
    for st, v, node in run.retsites:
        res.count('ways_out')
        line = getattr(node, 'lineno', None) or f.node.lineno
        if v.only_none() and not ns & {'None', '?'}:
            if node is None and f.qual in ENDLESS:
                continue
            how = 'the end of the body is reached without a return' if node is None else 'a return statement gives no value'
            res.add(Finding('missing-result', f, what + (' end' if node is None else ' return'),
                            '%s: %s, the documented result is %s' % (what, how, text), line))
            continue
        w = mismatch(run, st, v, spec)
        if w is not None:
            res.add(Finding('wrong-kind', f, what, '%s may return %s, the documented result is %s' % (what, w, text), line))


def run(ctx, fixture=False):
    res = Result()
    I = own_values(ctx, 'summary')
    table = KINDS
    if fixture:
        table = FIX
    for rel, name, opts, opt, text in entries(ctx, table):
        f = ctx.find('%s:%s' % (rel, name))
        if f is None:
            res.count('names_not_found')
            continue
        spec = parse(text)
        if opts:
            if any(p not in f.params for p in opts):
                res.count('options_not_found')
                continue
            shapes = tuple((n, opts[n] if n in opts else s) for n, s in specs.param_shapes(I, f))
            J = own_values(ctx, 'inline')
            r = J.analyze(f, shapes)
        else:
            r = ctx.run_all(I, [f]).get(f)
            if r is None:
                res.count('not_analysed')
                continue
        what = name + (('(%s)' % opt) if opts else '')
        judge(r, f, spec, text, res, what)
    if not fixture and res.counts.get('names_not_found', 0) > 15:
        raise Broken('documented operations no longer found: %d' % res.counts['names_not_found'])
    return res


_F = 'rosemary/kinds.py'
FIX = {_F: {
    'ok_int': 'int', 'ok_pair': '(int, list[int])', 'ok_option(flag=True)': 'list[int]', 'ok_option(flag=False)': 'dict[int: int]',
    'ok_gen': 'gen[(int, int)]', 'ok_sentinel': 'int', 'ok_none': 'int | None', 'ok_helper': 'list[int]', 'ok_sub': 'Base',
    'bad_float': 'int', 'bad_float_element': 'list[int]', 'bad_generator': 'list[int]', 'bad_filter': 'list[int]', 'bad_set': 'list[int]',
    'bad_swapped': '(int, list[int])', 'bad_arity': '(int, int)', 'bad_fall': 'list[int]', 'bad_bare': 'list[int]', 'bad_yield': 'gen[(int, int)]',
    'bad_turned_generator': 'list[int]', 'bad_class': 'Base', 'bad_always': 'int', 'bad_option(flag=True)': 'list[int]', 'bad_value': 'dict[int: int]',
    'bad_bool': 'int', 'bad_late': 'int', 'bad_own': 'list[?]', 'ok_own': 'list[?]', 'bad_label': '(num, list[?])',
}}
FIXTURE = 'p14'
EXPECT = [('wrong-kind', 'bad_float'), ('wrong-kind', 'bad_float_element'), ('wrong-kind', 'bad_generator'), ('wrong-kind', 'bad_filter'),
          ('wrong-kind', 'bad_set'), ('wrong-kind', 'bad_swapped'), ('wrong-kind', 'bad_arity'), ('missing-result', 'bad_fall'),
          ('missing-result', 'bad_bare'), ('wrong-kind', 'bad_yield'), ('wrong-kind', 'bad_turned_generator'), ('wrong-kind', 'bad_class'),
          ('no-result', 'bad_always'), ('wrong-kind', 'bad_option'), ('wrong-kind', 'bad_value'), ('wrong-kind', 'bad_bool'), ('wrong-kind', 'bad_late'),
          ('wrong-kind', 'bad_own'), ('wrong-kind', 'bad_label')]
