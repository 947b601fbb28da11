"""P09: the boundary classes of inputs have their defined answers."""
import ast

from ..common import *
from .. import answers
from ..tables import boundary as B

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every entry of a table of boundary classes (smallest, empty, degenerate and out-of-range inputs: '
               'every integer below 2, every odd number, every list, every graph without edges, every vertex label ...).  Each entry is an '
               'expression over public operations whose free names stand for whole classes; the interpreter computes one abstract value '
               'that covers all members (intervals with parity, container lengths and contents, truth values) and the set of exceptions '
               'that can leave the call.  Reported: no member can get a normal answer, or no value covered by the abstract answer is the '
               'defined one.')
RULES = ['rejected: every path of the call raises, for every member of the class',
         'wrong: every value the call can return for the class differs from the defined answer']
ASSUMPTIONS = ['an abstract answer that includes the defined answer and others is not reported (entries_possible); entries_certain counts the '
               'entries where the abstract answer is exactly the defined one for every member of the class']
MINIMUM = {'entries': 600, 'entries_certain': 120}

PEEL = 3      # iterations of a loop with a decided test analysed one by one
HIDDEN = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
PRELUDE_NAMES = set(f.name for f in ast.parse(B.PRELUDE).body if isinstance(f, ast.FunctionDef)) | {'Graph'}


def free_names(e):
    return [n.id for n in ast.walk(ast.parse(e, mode='eval')) if isinstance(n, ast.Name)]


class Put(ast.NodeTransformer):
    def __init__(self, name, by):
        self.name, self.by = name, by

    def visit_Name(self, node):
        return ast.parse(self.by, mode='eval').body if node.id == self.name else node


def parts(e):
    """the entry for each part of each of its classes"""
    names = set(free_names(e))
    lists = {n.value.id for n in ast.walk(ast.parse(e)) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name)}
    for c in sorted(names.intersection(B.PARTS)):
        for by in B.PARTS[c]:
            if by == '[]' and c in lists:
                continue
            if names.intersection(free_names(by)) - {'x', 'w'}:
                continue      # two different members of one class
            yield ast.unparse(Put(c, by).visit(ast.parse(e, mode='eval')))


def with_parts(entries):
    seen = set()
    for e, want in entries:
        for t in [e] + list(parts(e)):
            if t not in seen:
                seen.add(t)
                yield t, want


def scenario(ctx, module, entries, tag):
    """source of one function per entry"""
    target = ctx.proj.modules.get('rosemary.' + module)
    if target is None:
        return None
    helpers = B.HELPERS.get(module, '')
    own = {f.name for f in ast.parse(helpers).body if isinstance(f, ast.FunctionDef)}
    used = set()
    for e, _ in entries:
        used.update(free_names(e))
    for h in ast.parse(helpers).body:
        inner = {a.arg for a in h.args.args} | {n.id for n in ast.walk(h) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        used.update(n.id for n in ast.walk(h) if isinstance(n, ast.Name) and n.id not in inner)
    wanted = sorted(used - set(B.CLASSES) - PRELUDE_NAMES - own - HIDDEN)
    known = [n for n in wanted if ctx.proj.resolve(target, n)]
    src = B.PRELUDE
    if known:
        src += '\nfrom rosemary.%s import %s\n' % (module, ', '.join(known))
    src += helpers
    lost = set(wanted) - set(known)
    kept = []
    for i, (e, a) in enumerate(entries):
        names = free_names(e)
        if lost.intersection(names) or (own.intersection(names) and lost):
            continue
        ps = [p for p in sorted(set(names)) if p in B.CLASSES]
        kept.append((i, e, a, ps, [n for n in names if n in known]))
        src += '\n\ndef case_%d(%s):\n    return %s\n' % (i, ', '.join(ps) or '_none', e)
    return ctx.proj.add_source('boundary_%s_%s' % (tag, module.replace('.', '_')), src), kept


def blame(ctx, module, names, e):
    """the public operation an entry is about"""
    target = ctx.proj.modules['rosemary.' + module]
    attrs = [n.attr for n in ast.walk(ast.parse(e, mode='eval')) if isinstance(n, ast.Attribute)]
    for attr in attrs:
        for c in target.classes.values():
            if attr in c.methods:
                return c.methods[attr]
    found = [ctx.proj.resolve(target, n) for n in names]
    for r in found:
        if r and r[0] == 'func':
            return r[1]
    for r in found:
        if r and r[0] == 'class':
            return '%s:%s' % (target.relpath, getattr(r[1], 'name', '?'))
    return '%s:%s' % (target.relpath, e.split('(')[0])


def run(ctx, fixture=False):
    res = Result()
    table = FIXTURE_CASES if fixture else B.CASES
    I = ctx.interp(mode='inline')
    I.peel = PEEL
    for module in sorted(table):
        entries = list(with_parts(table[module]))
        made = scenario(ctx, module, entries, 'f' if fixture else 'r')
        if made is None:
            res.count('entries_without_function', len(entries))
            continue
        m, kept = made
        res.count('entries_without_function', len(entries) - len(kept))
        for i, e, want, ps, names in kept:
            f = m.functions['case_%d' % i]
            r = I.analyze(f, tuple((p, B.CLASSES.get(p, specs.U)) for p in (ps or ['_none'])))
            res.count('entries')
            classes = ', '.join('%s: %s' % (p, describe(B.CLASSES[p])) for p in ps)
            text = e + (' [%s]' % classes if classes else '')
            who = blame(ctx, module, names, e)
            if r.exit is None:
                sites = ['%s: %s, line %s' % (x, g.fq, getattr(n, 'lineno', '?')) for x, (g, n) in sorted(r.raises.items())]
                line = None
                res.add(Finding('rejected', who, e, '%s has no normal answer: every path raises (%s); the defined answer is %s' % (
                    text, '; '.join(sites) or 'does not return', want), line, sites))
                continue
            verdict = answers.YES if want is B.ANY else answers.compare(r, r.exit, r.ret, want)
            if verdict == answers.NO:
                res.add(Finding('wrong', who, e, '%s can only be %s; the defined answer is %s' % (
                    text, answers.show(r, r.exit, r.ret), want), None, ['the abstract answer covers every member of the class']))
            elif want is B.ANY:
                res.count('entries_answered')
            elif verdict == answers.YES:
                res.count('entries_certain')
                res.sample('certain', '%s = %s' % (text, want), 400)
            else:
                res.count('entries_possible')
                res.sample('possible', '%s: %s covers %s' % (text, answers.show(r, r.exit, r.ret), want), 400)
    return res


def describe(sh):
    from .P07 import shtext
    return shtext(sh)


FIXTURE = 'p09'
FIXTURE_CASES = {'things': [
    ('ok_low(low)', False), ('bad_low(low)', False), ('bad_empty([])', B.ANY), ('ok_empty([])', 0), ('bad_range(nat)', B.INT_(0)), ('bad_size([x])', B.SIZE('list', 1)),
    ('bad_none(1)', [1]), ('ok_size(xs)', B.SIZE('list', 0, None)), ('bad_first(nothing())', B.ANY), ('bad_pair(1)', (0, [])), ('ok_pair(1)', (0, [])), ('bad_loop(odd)', 0),
]}
EXPECT = [('wrong', q) for q in ('bad_low', 'bad_range', 'bad_size', 'bad_none', 'bad_pair', 'bad_loop')] + [('rejected', q) for q in ('bad_empty', 'bad_first')]
