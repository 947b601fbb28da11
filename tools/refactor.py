#!/usr/bin/env python3
"""refactor.py DEST TRANSFORM...: behaviour-preserving rewriting of a copy of the library, to see that the checks stay quiet.  Not used by any check."""
import ast
import copy
import glob
import os
import random
import sys


def fresh(fn, base):
    names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for n in ast.walk(fn) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs}
    i = 0
    while '%s%d' % (base, i) in names:
        i += 1
    return '%s%d' % (base, i)


class Base(ast.NodeTransformer):
    cnt = 0

    def new(self, base='tmp'):
        Base.cnt += 1
        return '%s_q%d' % (base, Base.cnt)


def name(x, st=False):
    return ast.Name(x, ast.Store() if st else ast.Load())


def assign(x, v):
    return ast.Assign([name(x, True)], v)


class SwapIf(Base):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(negate(n.test), n.orelse, n.body)
        return n


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand if isinstance(t.operand, ast.Compare) else ast.UnaryOp(ast.Not(), t)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        for a, b in m.items():
            if type(t.ops[0]) is a:
                return ast.Compare(t.left, [b()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class Flip(Base):
    """a < b -> b > a"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class RetTemp(Base):
    """return e -> r = e; return r"""
    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Constant):
            return n
        t = self.new('result')
        return [assign(t, n.value), ast.Return(name(t))]


class Wrap(Base):
    """def f(args): body  ->  def _f(args): body;  def f(args): return _f(args)   (module level functions)"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs:
                inner = copy.deepcopy(s)
                inner.name = '_' + s.name.lstrip('_') + '_impl'
                doc = ast.get_docstring(s, clean=False)
                if doc is not None:
                    inner.body = inner.body[1:] or [ast.Pass()]
                inner.args.defaults = []
                call = ast.Return(ast.Call(name(inner.name), [name(a.arg) for a in s.args.args], []))
                s.body = ([s.body[0]] if doc is not None else []) + [call]
                out += [inner, s]
            else:
                out.append(s)
        m.body = out
        return m


class WhileTrue(Base):
    """while c: B -> while True: if not c: break; B"""
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        return ast.While(ast.Constant(True), [ast.If(negate(n.test), [ast.Break()], [])] + n.body, [])


class ForWhile(Base):
    """for i in range(a, b): B -> while; only without continue, and when the name is not assigned in the body or read by a nested function"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not isinstance(n.target, ast.Name) or not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and not n.iter.keywords):
            return n
        a = n.iter.args
        if len(a) == 3 and not (isinstance(a[2], ast.Constant) and a[2].value > 0):
            return n
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Continue, ast.Lambda, ast.FunctionDef)):
                    return n
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n.target.id:
                    return n
        i, stop = self.new('counter'), self.new('stop')
        start = a[0] if len(a) > 1 else ast.Constant(0)
        end = a[1] if len(a) > 1 else a[0]
        step = a[2] if len(a) == 3 else ast.Constant(1)
        return [assign(i, start), assign(stop, end),
                ast.While(ast.Compare(name(i), [ast.Lt()], [name(stop)]), [assign(n.target.id, name(i))] + n.body + [ast.AugAssign(name(i, True), ast.Add(), step)], [])]


class CompLoop(Base):
    """x = [e for v in s if c] -> x = []; for ...: x.append(e)   (new names for the variables)"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.ListComp, ast.SetComp, ast.DictComp)):
            v = n.value
            for x in ast.walk(v):
                if isinstance(x, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)) and x is not v:
                    return n
            bound = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            ren = {b: self.new(b) for b in bound}
            v = Rename(ren).visit(copy.deepcopy(v))
            acc = self.new('acc')
            if isinstance(v, ast.ListComp):
                init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [v.elt], []))
            elif isinstance(v, ast.SetComp):
                init, add = ast.Call(name('set'), [], []), ast.Expr(ast.Call(ast.Attribute(name(acc), 'add', ast.Load()), [v.elt], []))
            else:
                init, add = ast.Dict([], []), ast.Assign([ast.Subscript(name(acc), v.key, ast.Store())], v.value)
            body = [add]
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            return [assign(acc, init)] + body + [assign(n.targets[0].id, name(acc))]
        return n


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


class ElseNest(Base):
    """if c: ...return; rest -> if c: ...return else: rest"""
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(body):
                s.orelse = self.block(body[i + 1:])
                out.append(s)
                return out
            out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.With)):
            n.body = self.block(n.body)
            if getattr(n, 'orelse', None):
                n.orelse = self.block(n.orelse)
        return n


class UnElse(Base):
    """if c: return a else: rest -> if c: return a; rest  (not elif chains whose tail does not end)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            rest = n.orelse
            n.orelse = []
            return [n] + rest
        return n


class AndNest(Base):
    """if a and b: X -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            b = n.body
            for t in reversed(n.test.values):
                b = [ast.If(t, b, [])]
            return b[0]
        return n


class ArgTemp(Base):
    """x = f(g(y)) -> t = g(y); x = f(t): the first argument only, when the function is a plain name"""
    def visit_Lambda(self, n):
        return n

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.ListComp, ast.Subscript)):
            t = self.new('arg')
            a = v.args[0]
            v.args[0] = name(t)
            return [assign(t, a), n]
        return n


class RenameLocals(Base):
    """every local variable of a module-level function without nested scopes gets another name"""
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.ClassDef)) for s in f.body for x in ast.walk(s)):
            return f
        params = {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        loc = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        m = {x: x + '_local' for x in loc}
        f.body = [Rename(m).visit(s) for s in f.body]
        return f


class AugPlain(Base):
    """x += 1 -> x = x + 1 (numeric constants, or - * // % with plain names)"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and (isinstance(n.value, ast.Constant) and isinstance(n.value.value, int) or isinstance(n.op, (ast.FloorDiv, ast.Mod))):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class DocGone(Base):
    """docstrings removed except the parameter sections are documentation: removes the comment-like docstring only in nested functions"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        return f


class TestTemp(Base):
    """if <expr>: -> flag = <expr>; if flag:   (ifs that are not elifs)"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                t = self.new('flag')
                out += [assign(t, s.test)]
                s.test = name(t)
            out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and isinstance(n, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.With, ast.Try)):
                if f == 'orelse' and isinstance(n, ast.If) and len(b) == 1 and isinstance(b[0], ast.If):
                    continue
                setattr(n, f, self.block(b))
        return n


class HelperLoop(Base):
    """the body of the last top-level for statement of a function becomes a nested helper called for each item (no break/continue/return/yield, names only read)"""
    def visit_FunctionDef(self, f):
        for i in reversed(range(len(f.body))):
            s = f.body[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name):
                bad = any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for b in s.body for x in ast.walk(b))
                stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} | {x.name for b in s.body for x in ast.walk(b) if isinstance(x, (ast.FunctionDef, ast.ExceptHandler)) and x.name}
                outside = {x.id for j, b in enumerate(f.body) for x in ast.walk(b) if j != i and isinstance(x, ast.Name)} | {a.arg for a in f.args.args}
                if bad or stored & outside or s.target.id in outside:
                    continue
                h = self.new('step')
                fn = ast.FunctionDef(h, ast.arguments([], [ast.arg(s.target.id)], None, [], [], None, []), s.body, [])
                s.body = [ast.Expr(ast.Call(name(h), [name(s.target.id)], []))]
                f.body[i:i + 1] = [fn, s]
                break
        return f


class TupleSplit(Base):
    """(a, b) = (x, y) -> t1 = x; t2 = y; a = t1; b = t2"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.targets[0].elts) == len(n.value.elts) \
                and all(isinstance(t, ast.Name) for t in n.targets[0].elts):
            ts = [self.new() for _ in n.value.elts]
            return [assign(t, v) for t, v in zip(ts, n.value.elts)] + [ast.Assign([a], name(t)) for a, t in zip(n.targets[0].elts, ts)]
        return n


class Unpack(Base):
    """for (a, b) in xs: -> for item in xs: a, b = item"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Tuple):
            t = self.new('item')
            n.body = [ast.Assign([n.target], name(t))] + n.body
            n.target = name(t, True)
        return n


class LoopComp(Base):
    """for v in s: x.append(e)  ->  x.extend([e for v in s]) / x += """
    def visit_For(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call):
            c = n.body[0].value
            if isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and len(c.args) == 1 \
                    and not any(isinstance(x, ast.Name) and x.id == c.func.value.id for x in ast.walk(n.iter)) and not any(isinstance(x, ast.Name) and x.id == c.func.value.id for x in ast.walk(c.args[0])):
                return ast.Expr(ast.Call(ast.Attribute(c.func.value, 'extend', ast.Load()), [ast.ListComp(c.args[0], [ast.comprehension(n.target, n.iter, [], 0)])], []))
        return n


class IfExp(Base):
    """if c: x = a else: x = b  ->  x = a if c else b; and back"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) for b in (n.body[0], n.orelse[0])) \
                and n.body[0].targets[0].id == n.orelse[0].targets[0].id:
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        if len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(b, ast.Return) and b.value is not None for b in (n.body[0], n.orelse[0])):
            return ast.Return(ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(copy.deepcopy(n.targets), n.value.orelse)])
        return n


class EnumLoop(Base):
    """for x in s -> for idx, x in enumerate(s)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([name(self.new('idx'), True), n.target], ast.Store())
        n.iter = ast.Call(name('enumerate'), [n.iter], [])
        return n


class Inline(Base):
    """x = e; return x -> return e"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-1].value, ast.Name) and isinstance(b[-2], ast.Assign) \
                    and len(b[-2].targets) == 1 and isinstance(b[-2].targets[0], ast.Name) and b[-2].targets[0].id == b[-1].value.id:
                b[-2:] = [ast.Return(b[-2].value)]
        return n


class TryKeep(Base):
    """a statement that does nothing at the start and end of every block"""
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.For, ast.While)):
            n.body = [ast.Expr(ast.Constant(None))] + n.body + [ast.Pass()]
        if isinstance(n, ast.FunctionDef) and len(n.body) > 1:
            n.body = n.body[:1] + [ast.If(ast.Constant(False), [ast.Pass()], [])] + n.body[1:]
        return n


class Keywords(Base):
    """positional arguments of calls to functions of the same module passed by keyword (all but the first)"""
    def visit_Module(self, m):
        self.fns = {}
        seen = set()
        for x in ast.walk(m):
            if isinstance(x, ast.FunctionDef):
                if x.name in seen:
                    self.fns.pop(x.name, None)
                else:
                    seen.add(x.name)
                    if x in m.body and not x.args.vararg and not x.args.posonlyargs and not x.decorator_list:
                        self.fns[x.name] = [a.arg for a in x.args.args]
        return self.generic_visit(m)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.fns and not any(isinstance(a, ast.Starred) for a in n.args) and len(n.args) <= len(self.fns[n.func.id]):
            ps = self.fns[n.func.id]
            kw = [ast.keyword(p, a) for p, a in list(zip(ps, n.args))[1:]]
            return ast.Call(n.func, n.args[:1], kw + n.keywords)
        return n


class PowMul(Base):
    """x**2 -> x*x for names; a*2 -> 2*a for constants"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, int):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Closure(Base):
    """local aliases: xs.append(e) in loops -> push = xs.append before first use?  here: g = f; g(x) for module function calls in assignments"""
    def visit_Lambda(self, n):
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Name, ast.Attribute)):
            t = self.new('fn')
            f = n.value.func
            n.value.func = name(t)
            if isinstance(f, ast.Name) and f.id in ('super', 'locals'):
                n.value.func = f
                return n
            return [assign(t, f), n]
        return n


class Lift(Base):
    """base of the transforms that move code into new functions at module level"""
    def visit_Module(self, m):
        self.made = []
        self.builtin = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
        self.glob = {x.id for s in m.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        self.glob |= {s.name for s in m.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        self.glob |= {(a.asname or a.name).split('.')[0] for s in ast.walk(m) if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
        self.stack = []
        self.generic_visit(m)
        at = max([i for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [0]) + 1
        m.body[at:at] = self.made
        return m

    def visit_FunctionDef(self, f):
        own = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for x in ast.walk(f) if isinstance(x, ast.arguments) for a in x.args + x.kwonlyargs + [y for y in (x.vararg, x.kwarg) if y]} \
            | {x.name for x in ast.walk(f) if x is not f and isinstance(x, ast.FunctionDef)}
        nonl = {y for x in ast.walk(f) if isinstance(x, (ast.Nonlocal, ast.Global)) for y in x.names}
        self.stack.append((own, nonl, f))
        self.generic_visit(f)
        self.after(f)
        self.stack.pop()
        return f

    def after(self, f):
        pass

    def local(self, n):
        return any(n in own for own, _, _ in self.stack)

    def movable(self, nodes):
        for e in nodes:
            for x in ast.walk(e):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.FunctionDef, ast.Await, ast.Starred)):
                    return False
                if isinstance(x, ast.Attribute) and x.attr.startswith('__'):
                    return False
                if isinstance(x, ast.Name) and (x.id in ('super', 'locals') or any(x.id in nl for _, nl, _ in self.stack)):
                    return False
        return True

    def names(self, nodes, ctx=ast.Load):
        return sorted({x.id for e in nodes for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx) and self.local(x.id)})

    def make(self, base, params, body):
        h = '_' + self.new(base)
        self.made.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in params], None, [], [], None, []), body, []))
        return ast.Call(name(h), [name(x) for x in params], [])


class PredHelper(Lift):
    """if test: -> if _holds(names of test):"""
    def visit_If(self, n):
        self.generic_visit(n)
        if self.stack and self.movable([n.test]) and not isinstance(n.test, ast.Name) and self.names([n.test]):
            if any(isinstance(x, ast.BoolOp) for x in ast.walk(n.test)) and any(isinstance(x, (ast.Subscript,)) for x in ast.walk(n.test)):
                return n
            n.test = self.make('holds', self.names([n.test]), [ast.Return(n.test)])
        return n


class RaiseHelper(Lift):
    """if test: raise E -> _check(names)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if self.stack and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Raise) and self.movable([n]) and self.names([n]):
            return ast.Expr(self.make('check', self.names([n]), [n]))
        return n


class RetHelper(Lift):
    """return expr -> return _answer(names of expr)"""
    def visit_Return(self, n):
        if self.stack and n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and self.movable([n.value]) and self.names([n.value]):
            n.value = self.make('answer', self.names([n.value]), [ast.Return(n.value)])
        return n


class BlockHelper(Lift):
    """two or more simple assignments in a row -> one call of a helper"""
    def after(self, f):
        for b in ast.walk(f):
            for fld in ('body', 'orelse'):
                l = getattr(b, fld, None)
                if isinstance(l, list) and l and isinstance(l[0], ast.stmt):
                    self.runs(l)

    def runs(self, l):
        i = 0
        while i < len(l):
            j = i
            while j < len(l) and isinstance(l[j], (ast.Assign, ast.AugAssign)) and self.movable([l[j]]) and all(
                    isinstance(x, ast.Name) or isinstance(x, ast.Tuple) and all(isinstance(y, ast.Name) for y in x.elts)
                    for x in (l[j].targets if isinstance(l[j], ast.Assign) else [l[j].target])):
                j += 1
            if j - i >= 2 and not any(isinstance(x, ast.Name) and x.id == 'fn_' for s in l[i:j] for x in ast.walk(s)):
                ins, outs = [], []
                for s in l[i:j]:
                    ld = [x.id for x in ast.walk(s.value) if isinstance(x, ast.Name) and self.local(x.id)]
                    if isinstance(s, ast.AugAssign):
                        ld.append(s.target.id)
                    for x in ld:
                        if x not in outs and x not in ins:
                            ins.append(x)
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in outs:
                            outs.append(x.id)
                body = l[i:j] + [ast.Return(ast.Tuple([name(x) for x in outs], ast.Load()) if len(outs) > 1 else name(outs[0]))]
                call = self.make('step', ins, body)
                l[i:j] = [ast.Assign([ast.Tuple([name(x, True) for x in outs], ast.Store()) if len(outs) > 1 else name(outs[0], True)], call)]
                j = i + 1
            i = max(j, i + 1)


class LoopHelper(Lift):
    """a loop at the top of a function -> a call of a helper that runs it"""
    def after(self, f):
        if len(self.stack) != 1:
            return
        sure = {a.arg for a in f.args.args}
        for i, s in enumerate(f.body):
            if isinstance(s, (ast.For, ast.While)) and self.movable([s]) and not any(isinstance(x, (ast.Return, ast.Try)) for x in ast.walk(s)):
                st = self.names([s], ast.Store)
                later = {x.id for b in f.body[i + 1:] for x in ast.walk(b) if isinstance(x, ast.Name)}
                ld = self.names([s])
                if all(x in sure or x not in later for x in st):
                    outs = [x for x in st if x in later]
                    ins = [x for x in sorted(set(ld) | set(outs)) if x in sure]
                    if set(ld) <= sure | set(st):
                        body = [s] + ([ast.Return(ast.Tuple([name(x) for x in outs], ast.Load()) if len(outs) > 1 else name(outs[0]))] if outs else [])
                        call = self.make('run', ins, body)
                        f.body[i] = ast.Assign([ast.Tuple([name(x, True) for x in outs], ast.Store()) if len(outs) > 1 else name(outs[0], True)], call) if outs else ast.Expr(call)
            elif isinstance(s, ast.Assign):
                sure |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Reorder(Base):
    """x = a; y = b -> y = b; x = a where neither touches the other and nothing is called"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for fld in ('body', 'orelse'):
            l = getattr(n, fld, None)
            if isinstance(l, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                i = 0
                while i + 1 < len(l):
                    a, b = l[i], l[i + 1]
                    if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(x, (ast.Call, ast.Yield, ast.Subscript, ast.Attribute, ast.BinOp)) for x in ast.walk(s)) for s in (a, b)):
                        na, nb = ({x.id for x in ast.walk(s) if isinstance(x, ast.Name)} for s in (a, b))
                        if a.targets[0].id not in nb and b.targets[0].id not in na:
                            l[i], l[i + 1] = b, a
                            i += 1
                    i += 1
        return n


class Hoist(Base):
    """integer constants of functions -> names at module level"""
    def visit_Module(self, m):
        self.k = {}
        self.depth = 0
        self.generic_visit(m)
        at = max([i for i, s in enumerate(m.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [0]) + 1
        m.body[at:at] = [assign(v, ast.Constant(c)) for c, v in self.k.items()]
        return m

    def visit_FunctionDef(self, f):
        self.depth += 1
        f.body = [self.visit(s) for s in f.body]
        self.depth -= 1
        return f

    def visit_JoinedStr(self, n):
        return n

    def visit_Constant(self, n):
        if self.depth and type(n.value) is int and n.value > 1:
            return name(self.k.setdefault(n.value, '_K%d' % n.value))
        return n


ALL = {c.__name__: c for c in (PredHelper, RaiseHelper, RetHelper, BlockHelper, LoopHelper, Reorder, Hoist, SwapIf, Flip, RetTemp, Wrap, WhileTrue, ForWhile, CompLoop, ElseNest, UnElse, AndNest, ArgTemp, RenameLocals, AugPlain, TestTemp, HelperLoop,
                               TupleSplit, Unpack, LoopComp, IfExp, EnumLoop, Inline, TryKeep, Keywords, PowMul, Closure)}


def main():
    dest, todo = sys.argv[1], sys.argv[2:]
    for p in sorted(glob.glob(dest + '/rosemary/**/*.py', recursive=True)):
        if '/tests/' in p or os.path.basename(p) in ('prime_list.py', '__init__.py'):
            continue
        src = open(p).read()
        t = ast.parse(src)
        Base.cnt = 0
        for x in todo:
            t = ALL[x]().visit(t)
            ast.fix_missing_locations(t)
        open(p, 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    main()
