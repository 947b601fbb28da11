"""effects of public functions and of importing the modules"""
import ast
from ..common import *


def quiet_shapes(I, f):
    """documented parameter types, with diagnostic output switched off"""
    out = []
    for p, sh in specs.param_shapes(I, f):
        if p in ('verbose', 'debug'):
            sh = ('v', FALSE)
        out.append((p, sh))
    return tuple(out)


def effect_of_api(ctx, fixture=False):
    I = ctx.interp()
    out = []
    for f in ctx.api():
        try:
            r = I.analyze(f, quiet_shapes(I, f))
        except Exception as e:
            ctx.failures[f.fq] = '%s: %s' % (type(e).__name__, e)
            continue
        eff = dict(r.effects)
        # a generator function's body runs when the result is consumed: r is the run of that body
        out.append((f, eff))
    if ctx.tier == 'thorough' and not fixture:
        J = ctx.interp(mode='inline')
        for i, f in enumerate(ctx.api()):
            try:
                r = J.analyze(f, quiet_shapes(J, f))
            except Exception as e:
                ctx.failures[f.fq] = '%s: %s' % (type(e).__name__, e)
                continue
            for e, chain in r.effects.items():
                out[i][1].setdefault(e, chain) if out[i][0] is f else out.append((f, {e: chain}))
    return out


def chain_text(chain):
    return ['%s line %s' % (g.fq if hasattr(g, 'fq') else g, getattr(n, 'lineno', '?')) for g, n in chain]


class ModFn(object):
    def __init__(self, m):
        self.fq, self.module = '%s:<module>' % m.relpath, m


def module_effects(ctx):
    """(module, effect, node, chain) for everything that runs when the module is imported"""
    I = ctx.interp()
    seen = {}
    for m in ctx.proj.modules.values():
        me = ModFn(m)
        for node in import_time_nodes(m.tree):
            targets = []
            if isinstance(node, ast.Call):
                targets = [node.func]
            elif isinstance(node, ast.FunctionDef):
                targets = [d.func if isinstance(d, ast.Call) else d for d in node.decorator_list]
            elif isinstance(node, ast.Delete):
                yield m, ('stmt', 'del'), node, [(me, node)]
            for t in targets:
                r = None
                if isinstance(t, ast.Name):
                    r = ctx.proj.resolve(m, t.id)
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                    b = ctx.proj.resolve(m, t.value.id)
                    if b and b[0] == 'ext':
                        r = ('extattr', b[1], t.attr)
                    elif b and b[0] == 'lib':
                        r = ctx.proj.modattr(b[1], t.attr)
                    elif b and b[0] == 'extattr':
                        r = ('extattr', '%s.%s' % (b[1], b[2]), t.attr)
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name):
                    b = ctx.proj.resolve(m, t.value.value.id)
                    if b and b[0] == 'ext':
                        r = ('extattr', '%s.%s' % (b[1], t.value.attr), t.attr)
                if r is None:
                    continue
                if r[0] == 'builtin':
                    yield m, ('builtin', r[1]), node, [(me, node)]
                elif r[0] == 'extattr':
                    yield m, ('ext', r[1], r[2]), node, [(me, node)]
                elif r[0] in ('func', 'class'):
                    f = r[1] if r[0] == 'func' else ctx.proj.find_method(r[1], '__init__')
                    if f is None:
                        continue
                    if f not in seen:
                        try:
                            seen[f] = I.analyze(f).effects
                        except Exception:
                            seen[f] = {}
                    for e, chain in seen[f].items():
                        yield m, e, node, [(me, node)] + chain


def as_script(t, tree):
    """True: the condition holds only when the module is run as a script; False: only when it is not; None: neither"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = as_script(t.operand, tree)
        return None if r is None else not r
    if isinstance(t, ast.Name):
        vs = [n.value for n in tree.body if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t.id for x in n.targets)]
        return as_script(vs[0], tree) if len(vs) == 1 and not isinstance(vs[0], ast.Name) else None
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        ab = (t.left, t.comparators[0])
        if any(isinstance(x, ast.Name) and x.id == '__name__' for x in ab) and any(isinstance(x, ast.Constant) and x.value == '__main__' for x in ab):
            return True if isinstance(t.ops[0], ast.Eq) else False if isinstance(t.ops[0], ast.NotEq) else None
    return None


def import_time_nodes(tree):
    """nodes evaluated at import: everything except function bodies"""
    todo = list(tree.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            todo.extend(getattr(n, 'decorator_list', []))
            todo.extend(n.args.defaults)
            todo.extend(x for x in n.args.kw_defaults if x is not None)
            continue
        if isinstance(n, ast.If):
            t = as_script(n.test, tree)
            if t is not None:
                todo.extend(n.orelse if t else n.body)
                continue
        todo.extend(ast.iter_child_nodes(n))
