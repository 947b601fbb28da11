"""Constant propagation over closed expressions and their initialisers, and two small exact domains:

* Aff: integers of the form a*k + b for a parameter k (all k >= K0), one residue class of the argument at a time;
* Floor: integer combinations of floor(x/m), for one variable x.

Nothing of the library is executed: operators are applied to literals found in the source.
"""
import ast
import operator

BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
       ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.Pow: operator.pow, ast.Div: operator.truediv}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
       ast.GtE: operator.ge, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
       ast.Is: operator.is_, ast.IsNot: operator.is_not}
CALLS = {'range': range, 'len': len, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'frozenset': frozenset,
         'zip': lambda *a: list(zip(*a)), 'enumerate': lambda *a: list(enumerate(*a)), 'sum': sum, 'min': min, 'max': max,
         'sorted': sorted, 'bytearray': bytearray, 'bytes': bytes, 'reversed': lambda a: list(reversed(a)), 'abs': abs,
         'divmod': divmod, 'bool': bool, 'int': int, 'any': any, 'all': all, 'pow': pow}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'update', 'discard', 'setdefault', 'sort', 'reverse', 'popitem'}
K0 = 50


class No(Exception):
    """not a closed expression of this domain"""


class Aff(object):
    """a*k + b for every integer k >= K0"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return '%d*k%+d' % (self.a, self.b)

    @staticmethod
    def of(x):
        if isinstance(x, Aff):
            return x
        if isinstance(x, bool) or isinstance(x, int):
            return Aff(0, int(x))
        raise No('not an integer')

    def out(self):
        return self.b if self.a == 0 else self


def aff_bin(op, x, y):
    x, y = Aff.of(x), Aff.of(y)
    if isinstance(op, ast.Add):
        return Aff(x.a + y.a, x.b + y.b).out()
    if isinstance(op, ast.Sub):
        return Aff(x.a - y.a, x.b - y.b).out()
    if isinstance(op, ast.Mult) and (x.a == 0 or y.a == 0):
        if x.a == 0:
            x, y = y, x
        return Aff(x.a*y.b, x.b*y.b).out()
    if y.a == 0 and y.b > 0:
        m = y.b
        if isinstance(op, ast.FloorDiv) and x.a % m == 0:
            return Aff(x.a//m, x.b//m).out()
        if isinstance(op, ast.Mod) and x.a % m == 0:
            return x.b % m
        if isinstance(op, ast.RShift) and x.a % (1 << m) == 0:
            return Aff(x.a >> m, x.b >> m).out()
        if isinstance(op, ast.LShift):
            return Aff(x.a << m, x.b << m).out()
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
            w = 1 << m.bit_length()
            if x.a % w == 0:
                low = x.b % w
                new = BIN[type(op)](low, m)
                if isinstance(op, ast.BitAnd):
                    return new
                return Aff(x.a, x.b - low + new).out()
    raise No('not affine')


def aff_cmp(op, x, y):
    d = aff_bin(ast.Sub(), x, y)
    if not isinstance(d, Aff):
        return CMP[type(op)](d, 0)
    lo = d.a*K0 + d.b            # monotone in k: the sign is settled when it is at k = K0
    if d.a > 0 and lo > 0:
        s = 1
    elif d.a < 0 and lo < 0:
        s = -1
    else:
        raise No('sign not settled')
    if isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
        raise No('comparison')
    return CMP[type(op)](s, 0)


class Folder(object):
    """folds expressions; names come from env, then single-assignment locals, class and module level initialisers"""

    def __init__(self, proj, module, cls=None, fn=None, budget=3000000):
        self.proj, self.module, self.cls, self.fn = proj, module, cls, fn
        self.budget = budget
        self.cache = {}
        self.busy = set()

    def at(self, module, cls=None, fn=None):
        g = Folder(self.proj, module, cls, fn, self.budget)
        g.busy = self.busy
        return g

    # -------------------------------------------------------------- names
    def name(self, n):
        f = self.fn
        while f is not None:
            if n in f.locals:
                if n in f.params:
                    raise No('parameter')
                return self.table(f.node.body, n, ('f', f.fq, n), self.at(self.module, self.cls, f))
            f = f.parent
        r = self.proj.resolve(self.module, n)
        if r is None:
            raise No('unknown name')
        if r[0] == 'var':
            m = r[1]
            return self.table(m.tree.body, r[2], ('m', m.name, r[2]), self.at(m))
        if r[0] == 'builtin' and n in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[n]
        raise No('name %s' % n)

    def attr(self, e):
        """cls.T, self.T, Class.T, module.T"""
        if isinstance(e.value, ast.Name):
            b = e.value.id
            c = None
            if b in ('cls', 'self') and self.cls is not None:
                c = self.cls
            else:
                r = self.proj.resolve(self.module, b)
                if r and r[0] == 'class':
                    c = r[1]
                elif r and r[0] == 'lib':
                    r2 = self.proj.modattr(r[1], e.attr)
                    if r2 and r2[0] == 'var':
                        return self.table(r2[1].tree.body, r2[2], ('m', r2[1].name, r2[2]), self.at(r2[1]))
            if c is not None:
                for k in self.proj.mro(c):
                    if e.attr in k.attrs:
                        return self.table(k.node.body, e.attr, ('c', k.module.name, k.name, e.attr), self.at(k.module, k))
        raise No('attribute')

    def table(self, body, name, key, at):
        """value of a name bound once at this level, including the loops that fill it in"""
        root = self.cache
        if key in root:
            if root[key] is None:
                raise No('not constant')
            return root[key]
        if key in self.busy:
            raise No('recursive')
        self.busy.add(key)
        try:
            v = at.build(body, name)
            root[key] = v
            return v
        except No:
            root[key] = None
            raise
        finally:
            self.busy.discard(key)

    def build(self, body, name):
        assigns, fills = [], []
        for s in body:
            hit = [n for n in ast.walk(s) if (isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)))]
            if hit:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    assigns.append(s)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    assigns.append(s)
                else:
                    raise No('bound in a compound statement')
            elif self.changes(s, name):
                fills.append(s)
        if len(assigns) != 1:
            raise No('bound %d times' % len(assigns))
        v = self.expr(assigns[0].value, {})
        if fills:
            env = {name: v}
            for s in fills:
                self.fill(s, env)
            v = env[name]
        return v

    @staticmethod
    def changes(s, name):
        for n in ast.walk(s):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name) and n.value.id == name:
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == name and n.func.attr in MUTATORS:
                return True
        return False

    def fill(self, s, env):
        """a loop that fills a table at module or class level: only stores at folded positions"""
        self.budget -= 1
        if self.budget < 0:
            raise No('budget')
        if isinstance(s, ast.For) and not s.orelse:
            for x in self.expr(s.iter, env):
                self.bind(s.target, x, env)
                for t in s.body:
                    self.fill(t, env)
        elif isinstance(s, ast.If):
            for t in (s.body if self.expr(s.test, env) else s.orelse):
                self.fill(t, env)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            v = self.expr(s.value, env)
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in env:
                try:
                    env[t.value.id][self.expr(t.slice, env)] = v
                except (IndexError, TypeError):
                    raise No('store outside the table')
            else:
                self.bind(t, v, env)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in env \
                and s.value.func.attr in ('append', 'add', 'extend', 'update'):
            getattr(env[s.value.func.value.id], s.value.func.attr)(*[self.expr(a, env) for a in s.value.args])
        elif isinstance(s, (ast.Pass, ast.Expr)):
            pass
        else:
            raise No('statement')

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            try:
                v = list(v)
            except TypeError:
                raise No('unpack')
            if len(v) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise No('unpack')
            for a, b in zip(t.elts, v):
                self.bind(a, b, env)
        else:
            raise No('target')

    # -------------------------------------------------------------- expressions
    def expr(self, e, env):
        self.budget -= 1
        if self.budget < 0:
            raise No('budget')
        try:
            return self._expr(e, env)
        except No:
            raise
        except (ArithmeticError, LookupError, TypeError, ValueError, AttributeError, MemoryError) as x:
            raise No('%s' % x)

    def _expr(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return env[e.id] if e.id in env else self.name(e.id)
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left, env), self.expr(e.right, env)
            if isinstance(a, Aff) or isinstance(b, Aff):
                return aff_bin(e.op, a, b)
            if isinstance(e.op, (ast.Pow, ast.LShift)) and isinstance(b, int) and abs(b) > 4000:
                raise No('large')
            if isinstance(e.op, ast.Mult):
                for s, n in ((a, b), (b, a)):
                    if isinstance(s, (list, tuple, bytearray, bytes, str)) and (not isinstance(n, int) or n*max(1, len(s)) > 10**6):
                        raise No('large')
            return BIN[type(e.op)](a, b)
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env)
            if isinstance(e.op, ast.Not):
                if isinstance(v, Aff):
                    return not aff_cmp(ast.NotEq(), v, 0)
                return not v
            if isinstance(e.op, ast.USub):
                return aff_bin(ast.Sub(), 0, v) if isinstance(v, Aff) else -v
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(v, Aff):
                return aff_bin(ast.Sub(), -1, v)
            return ~v
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.expr(x, env)
                t = aff_cmp(ast.NotEq(), v, 0) if isinstance(v, Aff) else bool(v)
                if t != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.Compare):
            l = self.expr(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                r = self.expr(r, env)
                if isinstance(l, Aff) or isinstance(r, Aff):
                    ok = aff_cmp(op, l, r)
                else:
                    ok = CMP[type(op)](l, r)
                if not ok:
                    return False
                l = r
            return True
        if isinstance(e, ast.IfExp):
            t = self.expr(e.test, env)
            if isinstance(t, Aff):
                t = aff_cmp(ast.NotEq(), t, 0)
            return self.expr(e.body if t else e.orelse, env)
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.expr(x.value, env))
                else:
                    out.append(self.expr(x, env))
            return tuple(out) if isinstance(e, ast.Tuple) else out
        if isinstance(e, ast.Set):
            return {self.expr(x, env) for x in e.elts}
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(self.expr(v, env))
                else:
                    out[self.expr(k, env)] = self.expr(v, env)
            return out
        if isinstance(e, ast.Subscript):
            b = self.expr(e.value, env)
            if isinstance(e.slice, ast.Slice):
                i = slice(*[None if x is None else self.expr(x, env) for x in (e.slice.lower, e.slice.upper, e.slice.step)])
            else:
                i = self.expr(e.slice, env)
            if isinstance(b, (range, list, tuple, dict, str, bytearray, bytes)):
                if isinstance(i, Aff):
                    raise No('symbolic index')
                return b[i]
            raise No('subscript')
        if isinstance(e, ast.Attribute):
            return self.attr(e)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            self.comp(e, 0, dict(env), out)
            if isinstance(e, ast.DictComp):
                return dict(out)
            return set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.Call):
            return self.call(e, env)
        raise No(type(e).__name__)

    def comp(self, e, i, env, out):
        if i == len(e.generators):
            out.append((self.expr(e.key, env), self.expr(e.value, env)) if isinstance(e, ast.DictComp) else self.expr(e.elt, env))
            if len(out) > 10**6:
                raise No('large')
            return
        g = e.generators[i]
        for x in self.expr(g.iter, env):
            self.bind(g.target, x, env)
            if all(self.expr(c, env) for c in g.ifs):
                self.comp(e, i + 1, env, out)

    def call(self, e, env):
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise No('star')
        args = [self.expr(a, env) for a in e.args]
        kw = {k.arg: self.expr(k.value, env) for k in e.keywords}
        f = e.func
        if isinstance(f, ast.Name) and f.id not in env:
            r = self.proj.resolve(self.module, f.id)
            nested = None
            g = self.fn
            while g is not None and nested is None:
                for c in g.children:
                    if c.name == f.id:
                        nested = c
                g = g.parent
            if nested is not None:
                return self.apply(nested, args, kw)
            if r and r[0] == 'builtin' and f.id in CALLS and not kw:
                if f.id in ('min', 'max', 'abs', 'divmod', 'int', 'bool') and any(isinstance(a, Aff) for a in args):
                    if f.id == 'divmod':
                        return aff_bin(ast.FloorDiv(), *args), aff_bin(ast.Mod(), *args)
                    if f.id in ('min', 'max') and len(args) == 2:
                        less = aff_cmp(ast.Lt(), args[0], args[1])
                        return args[0] if less == (f.id == 'min') else args[1]
                    if f.id == 'int':
                        return args[0]
                    raise No('call')
                if any(isinstance(a, Aff) for a in args):
                    raise No('symbolic argument')
                if f.id == 'range' and len(range(*args)) > 10**6:
                    raise No('large')
                return CALLS[f.id](*args)
            if r and r[0] == 'func':
                return self.apply(r[1], args, kw)
        elif isinstance(f, ast.Attribute):
            if f.attr in ('get', 'items', 'keys', 'values', 'copy', 'index', 'count', 'split', 'bit_length', 'format', 'strip'):
                b = self.expr(f.value, env)
                if isinstance(b, (dict, list, tuple, str, int)) and not any(isinstance(a, Aff) for a in args) and not kw:
                    v = getattr(b, f.attr)(*args)
                    return list(v) if f.attr in ('items', 'keys', 'values') else v
        raise No('call')

    # -------------------------------------------------------------- straight-line code
    def apply(self, fn, args, kw, depth=[0]):
        """value of a straight-line library helper on these (affine or constant) arguments"""
        if fn.vararg or fn.kwarg or fn.is_gen or depth[0] > 6:
            raise No('helper')
        env = {}
        for p, v in zip(fn.params, args):
            env[p] = v
        env.update(kw)
        at = self.at(fn.module, fn.cls, fn)
        for p in fn.params:
            if p not in env:
                if p not in fn.defaults:
                    raise No('argument')
                env[p] = at.expr(fn.defaults[p], {})
        if isinstance(fn.node, ast.Lambda):
            return at.expr(fn.node.body, env)
        depth[0] += 1
        try:
            r = at.block(fn.node.body, env)
        finally:
            depth[0] -= 1
        if r is None:
            return None
        return at.expr(r.value, env) if r.value is not None else None

    def block(self, body, env):
        """follow straight-line code; returns the return statement reached, None at the end.  Loops only forget."""
        for s in body:
            if isinstance(s, ast.Return):
                return s
            if isinstance(s, ast.Raise):
                raise No('raises')
            if isinstance(s, ast.Assign):
                try:
                    v = self.expr(s.value, env)
                    for t in s.targets:
                        self.bind(t, v, env)
                except No:
                    for t in s.targets:
                        self.forget(t, env)
            elif isinstance(s, ast.AugAssign):
                try:
                    self.bind(s.target, self.expr(ast.BinOp(left=self.load(s.target), op=s.op, right=s.value), env), env)
                except No:
                    self.forget(s.target, env)
            elif isinstance(s, ast.If):
                try:
                    t = self.expr(s.test, env)
                    if isinstance(t, Aff):
                        t = aff_cmp(ast.NotEq(), t, 0)
                except No:
                    t = None
                if t is None:
                    for x in s.body + s.orelse:
                        if any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for n in ast.walk(x)):
                            raise No('undecided branch')
                        self.forget(x, env)
                else:
                    r = self.block(s.body if t else s.orelse, env)
                    if r is not None:
                        return r
            elif isinstance(s, (ast.For, ast.While)):
                if any(isinstance(n, ast.Return) for n in ast.walk(s)):
                    raise No('return in a loop')
                self.forget(s, env)
            elif isinstance(s, (ast.Expr, ast.Pass, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Assert, ast.Global, ast.Nonlocal)):
                pass
            else:
                raise No('statement')
        return None

    @staticmethod
    def load(t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        raise No('target')

    @staticmethod
    def forget(s, env):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = UNKNOWN
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                env[n.value.id] = UNKNOWN


class _Unknown(object):
    def __repr__(self):
        return '?'

    def _no(self, *a, **k):
        raise No('unknown')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = _no
    __and__ = __rand__ = __or__ = __ror__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __iter__ = _no
    __len__ = __getitem__ = __neg__ = __pow__ = __rpow__ = __xor__ = __rxor__ = __lshift__ = __rshift__ = __contains__ = _no
    __hash__ = _no


UNKNOWN = _Unknown()


# ------------------------------------------------------------------ floor-linear forms
class Floor(object):
    """sum of c[m] * floor(x/m), plus a constant c0, for one integer variable x"""

    def __init__(self, x, c, c0=0):
        self.x, self.c, self.c0 = x, {m: v for m, v in c.items() if v}, c0

    def __repr__(self):
        return ' + '.join('%d*(%s//%d)' % (v, self.x, m) for m, v in sorted(self.c.items()))


def floor_form(e, env):
    """Floor, int or None"""
    if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        return Floor(e.id, {1: 1})
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return fmul(floor_form(e.operand, env), -1)
    if isinstance(e, ast.BinOp):
        a, b = floor_form(e.left, env), floor_form(e.right, env)
        if a is None or b is None:
            return None
        if isinstance(a, int) and isinstance(b, int):
            try:
                return BIN[type(e.op)](a, b)
            except (ArithmeticError, KeyError, TypeError):
                return None
        if isinstance(e.op, ast.Add):
            return fadd(a, b)
        if isinstance(e.op, ast.Sub):
            return fadd(a, fmul(b, -1))
        if isinstance(e.op, ast.Mult):
            if isinstance(b, int):
                return fmul(a, b)
            if isinstance(a, int):
                return fmul(b, a)
            return None
        if isinstance(e.op, (ast.FloorDiv, ast.RShift)) and isinstance(b, int) and b > 0 and isinstance(a, Floor):
            m = b if isinstance(e.op, ast.FloorDiv) else 1 << b
            if len(a.c) == 1 and list(a.c.values()) == [1]:
                k = list(a.c)[0]
                if a.c0 == 0:
                    return Floor(a.x, {k*m: 1})
                if k == 1 and m == 2 and a.c0 == 1:          # ceil(x/2) = x - floor(x/2)
                    return Floor(a.x, {1: 1, 2: -1})
    return None


def fadd(a, b):
    if isinstance(a, int):
        a, b = b, a
    if a is None or b is None:
        return None
    if isinstance(b, int):
        return Floor(a.x, a.c, a.c0 + b) if isinstance(a, Floor) else a + b
    if a.x != b.x:
        return None
    c = dict(a.c)
    for m, v in b.c.items():
        c[m] = c.get(m, 0) + v
    return Floor(a.x, c, a.c0 + b.c0)


def fmul(a, k):
    if a is None:
        return None
    if isinstance(a, int):
        return a*k
    return Floor(a.x, {m: v*k for m, v in a.c.items()}, a.c0*k)


def legendre_form(a, primes=(2, 3, 5, 7, 11, 13, 17, 19, 23, 29)):
    out = {1: 1}
    for p in primes[:a]:
        for m, v in list(out.items()):
            out[m*p] = -v
    return out
