"""P12: loops do not resize what they run over; opened files are closed on every path."""
import ast

from ..common import *

LEVEL = 'other'
EXPLANATION = ('Typestate over the loops of every function reachable from the public ones: the container (or the container behind a dict view, enumerate, '
               'zip, map, filter or reversed) that a for statement runs over is an abstract object; a path on which that very object is resized, by the '
               'body or by anything it calls, and on which the loop then goes on to its next item, is reported.  For lists, removing, inserting and reordering count '
               '(appending is a defined way to extend the loop), for dicts, sets and deques every change of size.  Files: every call of open is the context expression of a with statement, '
               'or the file it is bound to is closed in a finally clause.')
RULES = ['resized-while-iterated: a loop may go on after the container it runs over was resized or reordered (RuntimeError, or items skipped)',
         'not-closed: a file is opened in a way that leaves it open when an exception is raised before it is closed']
ASSUMPTIONS = ['arguments have the documented types', 'assigning to a key of a dict being iterated is taken to replace an existing entry']
MINIMUM = {'loops': 250, 'files_opened': 2}


def opens(ctx, res):
    for m in ctx.proj.modules.values():
        owner = {}
        for f in ctx.proj.functions:
            if f.module is m and not f.is_lambda:
                for n in ast.walk(f.node):
                    owner[id(n)] = f           # innermost last: functions are listed outside in
        withs, parents = set(), {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                parents[id(c)] = n
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    withs.add(id(i.context_expr))
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            if not is_open(ctx, m, n.func):
                continue
            res.count('files_opened')
            f = owner.get(id(n))
            where = f if f is not None else m.relpath + ':<module>'
            res.sample('files_opened', '%s line %d' % (where.fq if f is not None else where, n.lineno))
            if id(n) in withs or guarded(n, parents):
                continue
            res.add(Finding('not-closed', where, 'open', 'the file opened here stays open when reading it raises: it is neither opened by a with statement nor closed in a finally clause', n.lineno))


def is_open(ctx, m, func):
    if isinstance(func, ast.Name):
        r = ctx.proj.resolve(m, func.id)
        return r is not None and (r == ('builtin', 'open') or r[:1] == ('extattr',) and r[1:] in (('io', 'open'), ('gzip', 'open'), ('bz2', 'open'), ('codecs', 'open')))
    if isinstance(func, ast.Attribute) and func.attr == 'open' and isinstance(func.value, ast.Name):
        r = ctx.proj.resolve(m, func.value.id)
        return r is not None and r[0] == 'ext' and r[1] in ('io', 'gzip', 'bz2', 'codecs')
    return False


def closes(stmts, name):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                return True
    return False


def guarded(call, parents):
    """the file is bound to a name whose with statement or closing finally clause follows at once, or is closed by contextlib.closing, or returned to the caller"""
    p = parents.get(id(call))
    if isinstance(p, ast.Call) and call in p.args:
        f = p.func
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
        return n in ('closing', 'enter_context')
    if isinstance(p, ast.Return):
        return True
    if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name)):
        return False
    name = p.targets[0].id
    holder = parents.get(id(p))
    # inside the body of a try whose finally closes it
    n, child = holder, p
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Module)):
        if isinstance(n, ast.Try) and closes(n.finalbody, name):
            return True
        n = parents.get(id(n))
    for field in ('body', 'orelse', 'finalbody'):
        body = getattr(holder, field, None)
        if isinstance(body, list) and p in body:
            rest = body[body.index(p) + 1:]
            for s in rest:
                if isinstance(s, ast.Try) and closes(s.finalbody, name):
                    return True
                if isinstance(s, ast.With) and any(isinstance(x, ast.Name) and x.id == name for i in s.items for x in ast.walk(i.context_expr)):
                    return True
                if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == name:
                    return True
                if any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.For, ast.Raise, ast.Return)) for x in ast.walk(s)):
                    return False
    return False


def run(ctx, fixture=False):
    res = Result()
    opens(ctx, res)
    interps = []
    I = ctx.interp()
    ctx.run_all(I)
    interps.append(I)
    if ctx.tier == 'thorough' and not fixture:
        J = ctx.interp(mode='inline')
        ctx.run_all(J)
        interps.append(J)
    seen = set()
    for K in interps:
        for n in K.visited_nodes:
            if isinstance(n, ast.For):
                seen.add(id(n))
        for ev in K.events.values():
            if ev.kind == 'itermut':
                f = ev.fn
                res.add(Finding('resized-while-iterated', f, 'for %s' % ast.unparse(ev.node.target),
                                'the loop over %s goes on after what it runs over was changed (%s)' % (ast.unparse(ev.node.iter), ev.what), ev.node.lineno))
    res.count('loops', len(seen))
    return res


FIXTURE = 'p12'
EXPECT = [('resized-while-iterated', 'bad_dict'), ('resized-while-iterated', 'bad_view'), ('resized-while-iterated', 'bad_list'), ('resized-while-iterated', 'bad_set'),
          ('resized-while-iterated', 'bad_callee'), ('resized-while-iterated', 'bad_alias'), ('resized-while-iterated', 'bad_default'),
          ('resized-while-iterated', 'Bag.bad_method'), ('not-closed', 'bad_file'), ('not-closed', 'bad_late_close')]
