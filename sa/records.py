"""places where a search records the best it has found: assignments controlled by a comparison with a place they overwrite"""
import ast

REF = (ast.Name, ast.Attribute, ast.Subscript)
ORDER = (ast.Lt, ast.Gt, ast.LtE, ast.GtE)


def named_tests(fnode):
    """names that stand for one test"""
    seen, out = {}, {}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            seen[n.id] = seen.get(n.id, 0) + 1
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and seen[n.targets[0].id] == 1 and isinstance(
                n.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            out[n.targets[0].id] = n.value
    return out


def compares(test, named=None):
    """order comparisons that decide the test: (this, that) both ways round"""
    out = []
    todo = [test]
    n = 0
    while todo:
        t = todo.pop()
        n += 1
        if isinstance(t, ast.Name) and named and t.id in named and n < 50:
            todo.append(named[t.id])
        elif isinstance(t, ast.BoolOp):
            todo.extend(t.values)
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            todo.append(t.operand)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ORDER):
            a, b = t.left, t.comparators[0]
            out.append((a, b))
            out.append((b, a))
    return out


def flat(targets):
    for t in targets:
        if isinstance(t, (ast.Tuple, ast.List)):
            yield from flat(t.elts)
        elif isinstance(t, ast.Starred):
            yield t.value
        else:
            yield t


def assigns(stmts):
    """assignments in a block, nested blocks included, nested functions not"""
    todo = list(stmts)
    while todo:
        s = todo.pop(0)
        if isinstance(s, ast.Assign):
            yield s
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            yield s
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for n in ast.iter_child_nodes(s):
            if isinstance(n, (ast.stmt, ast.excepthandler)):
                todo.append(n)


def targets_of(s):
    return list(flat(s.targets if isinstance(s, ast.Assign) else [s.target]))


def base(e):
    while isinstance(e, ast.Subscript):
        e = e.value
    return e


def whole(s, place):
    """best = (size, used) or best[:] = [size, used] for the place best[0]"""
    if not isinstance(s.value, (ast.Tuple, ast.List)) or not isinstance(place, ast.Subscript):
        return False
    b = ast.unparse(place.value)
    return any(ast.unparse(t) == b or isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and ast.unparse(t.value) == b for t in targets_of(s))


def leaves(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))


def controlled(node):
    """(If, block) for the blocks that the test of an If decides"""
    for b in ('body', 'orelse', 'finalbody'):
        blk = getattr(node, b, None)
        if isinstance(blk, list):
            for i, s in enumerate(blk):
                if isinstance(s, ast.If):
                    yield s, s.body
                    if s.orelse:
                        yield s, s.orelse
                    if leaves(s.body) and not s.orelse:
                        yield s, blk[i + 1:]


def sites(fnode):
    """(If, block, place, other side, assignments that overwrite the place, all assignments of the block)"""
    named = named_tests(fnode)
    for n in ast.walk(fnode):
        for test, blk in controlled(n):
            cs = compares(test.test, named)
            if not cs:
                continue
            asg = list(assigns(blk))
            for place, other in cs:
                if not isinstance(place, REF):
                    continue
                txt = ast.unparse(place)
                hit = [s for s in asg if any(ast.unparse(t) == txt for t in targets_of(s)) or whole(s, place)]
                if hit:
                    yield test, blk, place, other, hit, asg


def record_statements(fnode):
    """assignment -> the expressions it records by reference, for assignments that go with an improvement"""
    out = {}
    for test, blk, place, other, hit, asg in sites(fnode):
        for s in asg:
            out[s] = True
    return out
