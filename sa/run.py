import importlib
import ast
from .absval import *
from .project import FuncInfo, ClassInfo
from . import interp as I
from .models import Models

CMPNEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
          ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
CMPSWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

STDMODS = ('math', 'itertools', 'heapq', 'bisect', 'random', 'functools', 'copy', 'fractions', 'collections')


class Cut(str):
    """index of a slice, with the abstract values of its bounds"""


def first_name(t):
    """the part of a loop's target that decides the order"""
    while isinstance(t, (ast.Tuple, ast.List)) and t.elts:
        t = t.elts[0]
    return t.id if isinstance(t, ast.Name) else None


def keeps_order(target, elt, it=None):
    """what is made of the entries of a list in order is in order: the entry or its first component"""
    if isinstance(target, ast.Name) and isinstance(elt, ast.Subscript) and isinstance(elt.value, ast.Name) and isinstance(elt.slice, ast.Constant) and elt.slice.value == 0:
        return elt.value.id == target.id
    f = first_name(target)
    if f is not None and isinstance(elt, ast.Name):
        return elt.id == f
    if isinstance(target, ast.Tuple) and isinstance(elt, ast.Tuple) and elt.elts and isinstance(elt.elts[0], ast.Name) and elt.elts[0].id == f:
        # the keys of a dict are distinct
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'sorted' and len(it.args) == 1 and isinstance(
            it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Attribute) and it.args[0].func.attr == 'items'
    if isinstance(target, ast.Name) and isinstance(elt, ast.Tuple) and elt.elts and isinstance(elt.elts[0], ast.Name) and elt.elts[0].id == f:
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'sorted' and len(it.args) == 1 and (isinstance(
            it.args[0], ast.Name) or isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == 'set' or isinstance(
            it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Attribute) and it.args[0].func.attr == 'keys')
    return False


def gathers(s):
    """name of the list to which a loop appends, at most once in each round, what keeps the order"""
    hits = []
    loops = [n for b in s.body for n in ast.walk(b) if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda))]
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'append' and isinstance(
                    n.value.func.value, ast.Name) and len(n.value.args) == 1 and keeps_order(s.target, n.value.args[0], s.iter):
                hits.append((n.value.func.value.id, n))
    if len(hits) != 1 or loops:
        return None
    x = hits[0][0]
    used = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == x]
    t = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    set_again = any(isinstance(n, ast.Name) and n.id in t and isinstance(n.ctx, ast.Store) for b in s.body for n in ast.walk(b))
    return x if len(used) == 1 and not set_again else None


TINY = {}


def tiny(fn):
    """a few statements without loops: a piece of its callers, judged with what they know about its arguments"""
    r = TINY.get(fn)
    if r is None:
        n = 0
        r = not fn.is_gen
        for x in ast.walk(fn.node):
            if isinstance(x, ast.stmt) and x is not fn.node:
                n += 1
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.Try, ast.With, ast.ClassDef, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) and x is not fn.node:
                r = False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == fn.node.name:
                r = False
        if ast.get_docstring(fn.node) is not None:
            n -= 1
        r = TINY[fn] = r and n <= (12 if fn.node.name.startswith('_') and not fn.node.name.startswith('__') else 4) and not fn.node.decorator_list
    return r


class Rec(object):
    __slots__ = ('args', 'entry', 'exit', 'ret', 'dirty', 'used')


class TryCtx(object):
    __slots__ = ('handlers', 'states', 'depth')

    def __init__(self, handlers, depth):
        self.handlers, self.states, self.depth = handlers, [None] * len(handlers), depth


def exc_names(node):
    if node is None:
        return None
    if isinstance(node, ast.Name):
        return [node.id]
    if isinstance(node, ast.Attribute):
        return [node.attr]
    if isinstance(node, ast.Tuple):
        out = []
        for e in node.elts:
            out.extend(exc_names(e) or [])
        return out
    return []


def catches_errors(t):
    n = exc_names(t)
    return n is None or any(x in ('Exception', 'BaseException', 'TypeError', 'AttributeError', 'NameError', 'UnboundLocalError') for x in n)


def exc_matches(names, exc):
    if names is None:
        return True
    if exc in names or 'Exception' in names or 'BaseException' in names:
        return True
    import builtins
    c = getattr(builtins, exc, None)
    for n in names:
        d = getattr(builtins, n, None)
        if isinstance(c, type) and isinstance(d, type) and issubclass(c, d):
            return True
    return False


INF = float('inf')


_arms = {}


def helper_arms(fn, raising):
    """[(test, what is returned)] of a function that only tests and returns; the tests of one that only tests and raises"""
    k = (fn.node, raising)
    if k in _arms:
        return _arms[k]
    r = []
    body = [] if fn.is_lambda else list(fn.node.body)
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        body.pop(0)
    done = False
    while body and r is not None and not done:
        s = body.pop(0)
        if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Raise if raising else ast.Return):
            r.append((s.test, None if raising else s.body[0].value))
            if s.orelse:
                body = list(s.orelse) if not body else None
                if body is None:
                    r = None
        elif isinstance(s, ast.Return) and (not raising or s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None):
            if not raising:
                r.append((None, s.value))
            done = True
        else:
            r = None
    if r is not None and not raising and not done:
        r.append((None, None))
    if r is not None and raising and not r:
        r = None
    if r is not None and any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for t, v in r for e in (t, v) if e is not None for x in ast.walk(e)):
        r = None
    _arms[k] = r
    return r


SHARED = {}
_disturbs = {}


def disturbs(s):
    """the statement (expression) may change objects: it calls something, or stores into something"""
    r = _disturbs.get(s)
    if r is None:
        r = False
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance', 'abs', 'min', 'max', 'range', 'int')) or \
                    isinstance(x, (ast.AugAssign, ast.Yield, ast.YieldFrom, ast.Delete)) or \
                    isinstance(x, (ast.Subscript, ast.Attribute)) and not isinstance(x.ctx, ast.Load):
                r = True
                break
        _disturbs[s] = r
    return r


class Run(Models):
    """analysis of one function in one context"""

    def __init__(self, interp, fn, shapes):
        self.I = interp
        self.proj = interp.proj
        self.fn = fn
        self.shapes = dict(shapes)
        self.lazy = {}
        self.lazyattr = {}
        self.muts = {}
        self.iterating = []      # for loops being analysed: (statement, key of the state variable, the iterated value, its name in the state)
        self.effects = {}
        self.raises = {}
        self.frame = None
        self.frames = []
        self.sorted_iters = {}
        self.rec = {}
        self.trys = []
        self.comp = []
        self.held = 0
        self.alloclog = None
        self.comp_exact = True
        self.comp_was_exact = False
        self.comp_vals = None
        self.tested = 0          # helpers whose tests are being gone through
        self.counting = {}       # loops over enumerate(...) -> the first value of the counter
        self.calls_seen = None   # while a value that may be tested later is computed: call -> its value
        self.frozen = None       # while such a value is tested: call -> the value it had
        self.kept = {}           # generator of a comprehension -> no element is filtered out
        self.final_store = {}
        self.exit = None
        self.ret = BOT
        self.retsites = []       # (state, value, node) of each way out
        self.yieldsites = []
        self.depth = 0
        self.alloc_count = {}
        self.entry = False
        self.ctxkey = (fn.uid, tuple(shapes.items()) if isinstance(shapes, dict) else tuple(shapes))

    # ------------------------------------------------------------------ driver
    def execute(self):
        I.Interp  # keep
        fn = self.fn
        self.I.analysed.add(fn)
        st = I.State()
        fr = I.Frame(fn)
        self.frames.append(fr)
        self.frame = fr
        names = list(fn.params) + list(fn.kwonly)
        for p in names:
            sh = self.shapes.get(p)
            if sh is None:
                if p in fn.defaults:
                    v = self.default_val(fn, p)
                else:
                    v = UNK
            else:
                v = self.I.val_of_shape(sh, ('P', p), self.lazy)
                if self.entry and isinstance(fn.defaults.get(p), (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.Name)):
                    v = join(v, self.default_val(fn, p))
            if p in self.I.sorted_params and self.entry:
                for o in v.o:
                    if o.kind == 'list' and o.root == 'P':
                        st.must[o] = frozenset(['S'])
            if v.sym is None:
                v = v.with_(sym=('p', p))
            st.env[(fn.uid, p)] = v
        if fn.vararg:
            sh = self.shapes.get('*' + fn.vararg)
            o = Obj('tuple', ('A', 'vararg', fn.uid))
            v = self.I.val_of_shape(sh, ('P', fn.vararg), self.lazy) if sh else UNK
            st.store[o] = I.Cont(e=v, ln=(0, 0) if v.is_bot() else None)
            st.env[(fn.uid, fn.vararg)] = vobj(o)
        if fn.kwarg:
            o = Obj('dict', ('A', 'kwarg', fn.uid))
            sh = self.shapes.get('**' + fn.kwarg)
            v = self.I.val_of_shape(sh, ('P', fn.kwarg), self.lazy) if sh else UNK
            st.store[o] = I.Cont(e=v, k=BOT if v.is_bot() else STR, ln=(0, 0) if v.is_bot() else None)
            st.env[(fn.uid, fn.kwarg)] = vobj(o)
        out = self.exec_body(fn, st)
        if out is not None and not out.dead and not fn.is_lambda:
            fr.rets.append((out, NONE, None))
        ex = None
        ret = BOT
        for s, v, node in fr.rets:
            ex = I.jstate(ex, s)
            ret = join(ret, v)
        if fn.is_gen:
            for s in fr.ystates:
                ex = I.jstate(ex, s)
        self.exit = ex
        self.ret = ret
        self.retsites = list(fr.rets)
        self.yields = fr.yields
        self.final_store = ex.store if ex is not None else {}
        return self.summarise(ex, ret, fr)

    def exec_body(self, fn, st):
        if fn.is_lambda:
            v = self.ev(fn.node.body, st)
            if not st.dead:
                self.frame.rets.append((st, v, fn.node.body))
            return None
        return self.block(fn.node.body, st)

    def final_p(self):
        out = {}
        for o, c in self.final_store.items():
            if o.root == 'P':
                out[o] = c
        return out

    def summarise(self, ex, ret, fr):
        s = I.Summary()
        s.normal = ex is not None or (self.fn.is_gen)
        s.raises = set(self.raises)
        s.muts = dict(self.muts)
        s.effects = dict(self.effects)
        if self.fn.is_gen:
            ret = vobj(Obj('gen', ('A', 'GEN', self.fn.uid)))
            if ex is not None:
                fr.yields = self.aged(fr.yields, ex)
            s.conts[Obj('gen', ('A', 'GEN', self.fn.uid))] = I.Cont(e=fr.yields)
        s.ret = ret.with_(sym=None, ub=0, t=ret.t - frozenset(['alien']))
        if ex is None:
            ex = I.State()
        # reachable contents
        todo = list(s.ret.o) + list(fr.yields.o if self.fn.is_gen else ())
        pchg = {}
        for o, c in ex.store.items():
            if o.root == 'P':
                base = self.lazy.get(o, I.EMPTY)
                if c != base:
                    pchg[o] = c
        # objects that are reachable from changed P contents
        for o, c in pchg.items():
            s.pstores[o] = c
            for v in self.cont_vals(c):
                todo.extend(v.o)
        seen = set()
        while todo:
            o = todo.pop()
            if o in seen or not isinstance(o.key, tuple):
                continue
            seen.add(o)
            if o in s.conts:
                c = s.conts[o]
            elif o.root == 'A' or o.kind in ('bmeth', 'pmeth'):
                c = ex.store.get(o) or I.EMPTY
                s.conts[o] = c
                if o in ex.must:
                    s.must[o] = ex.must[o]
                if o.kind in ('bmeth', 'pmeth'):
                    todo.extend([x for x in o.key if isinstance(x, Obj)])
            else:
                continue
            for v in self.cont_vals(c):
                todo.extend(v.o)
        for o in list(ex.must):
            if o.root == 'P':
                s.must[o] = ex.must[o]
        self.crowd(s)
        return s

    CROWD = 40

    def crowd(self, s):
        """a recursive function returns what its own calls made, and so on: past a point, what a summary makes is told
        apart by kind only (each a batch of objects, all made by the call)"""
        names = [o for o in s.conts if isinstance(o.key, tuple) and o.root == 'A' and o.kind in MUTABLE | frozenset(['tuple', 'frozenset'])]
        if len(names) <= self.CROWD:
            return
        kept = frozenset(s.ret.o) if len(s.ret.o) <= 4 else frozenset()
        to = {}
        for o in names:
            if o not in kept and not (o.key[1] == 'GEN'):
                to[o] = Obj(o.kind, ('A', 'crowd', self.fn.uid), o.data, 2)

        def rv(v):
            if any(o in to for o in v.o):
                return v.with_(o=frozenset(to.get(o, o) for o in v.o))
            return v
        conts = {}
        for o, c in s.conts.items():
            o, c = to.get(o, o), inst_cont(c, rv)
            conts[o] = I.cjoin(conts[o], c) if o in conts else c
        s.conts = conts
        s.ret = rv(s.ret)
        s.must = {o: m for o, m in s.must.items() if o not in to}
        s.pstores = {o: inst_cont(c, rv) for o, c in s.pstores.items()}

    def cont_vals(self, c):
        out = list(c.a.values()) + [c.e, c.k]
        if c.ex is not None:
            out.extend(c.ex)
        return out

    # ------------------------------------------------------------------ state helpers
    def alloc(self, st, node, kind, cont=None, data=None, sub=None):
        o = Obj(kind, ('A', self.node_id(node), sub), data)
        if cont is None:
            cont = I.Cont()
        if o in st.store:
            self.age(st, o)
            old = o.old()

            def rv(v):
                return v.with_(o=(v.o - {o}) | {old}) if o in v.o else v
            cont = inst_cont(cont, rv)
        st.store[o] = cont
        st.fl.pop(o, None)
        st.must.pop(o, None)
        if self.alloclog is not None:
            self.alloclog.add(o)
        return o

    def node_id(self, node):
        return (self.frame.fn.uid, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                getattr(node, 'end_lineno', 0), getattr(node, 'end_col_offset', 0)) if not isinstance(node, tuple) else node

    def age(self, st, o, old=None):
        """recency: rename o (most recent instance) to its summary of older instances"""
        old = old or o.old()

        def rv(v):
            if o in v.o:
                return v.with_(o=(v.o - {o}) | {old})
            return v
        for k, v in list(st.env.items()):
            if v.o and o in v.o:
                st.env[k] = rv(v)
        for k, c in list(st.store.items()):
            ch = False
            for v in self.cont_vals(c):
                if o in v.o:
                    ch = True
                    break
            if ch:
                st.store[k] = I.Cont(None if c.ex is None else tuple(rv(x) for x in c.ex), rv(c.e), rv(c.k),
                                     {a: rv(x) for a, x in c.a.items()}, c.ne, c.ln)
        c = st.store.pop(o)
        first = old not in st.store
        if not first:
            st.store[old] = I.cjoin(st.store[old], c)
        else:
            st.store[old] = c
        f = st.fl.pop(o, None)
        if f:
            st.fl[old] = st.fl.get(old, frozenset()) | f
        m = st.must.pop(o, None)
        if old in st.must:
            st.must[old] = st.must[old] & (m or frozenset())
        elif m and first:
            st.must[old] = m

    # -- values kept while something else is evaluated: they are part of the state, so that renaming reaches them
    def hold(self, st, v, *rest):
        """remember v in the state while the expressions `rest` are evaluated (a token for take)"""
        if not v.o or rest and not any(allocates(e) for e in rest) or not any(o.root == 'A' for o in v.o):
            return v
        self.held += 1
        k = (self.frame.fn.uid, '~%d' % self.held)
        st.env[k] = v
        return (k, v)

    def take(self, st, tok):
        if not isinstance(tok, tuple):
            return tok
        self.held -= 1
        v = st.env.pop(tok[0], None)
        return tok[1] if v is None else v.with_(ub=tok[1].ub) if v.ub != tok[1].ub else v

    def ev_all(self, nodes, st):
        """the values of several expressions, evaluated in order"""
        toks = []
        for i, e in enumerate(nodes):
            v = self.ev(e, st)
            toks.append(self.hold(st, v, *nodes[i + 1:]) if i + 1 < len(nodes) else v)
        return [self.take(st, t) for t in reversed(toks)][::-1]

    def each(self, st, objs, f):
        """join f(state, object) over the objects, each from its own copy of the state"""
        objs = list(objs)
        if len(objs) == 1:
            return f(st, objs[0])
        out, res = None, BOT
        for o in sorted(objs, key=lambda o: (o.kind, str(o.key), o.rec)):
            s = st.copy()
            v = f(s, o)
            if not s.dead:
                out = I.jstate(out, s)
                res = join(res, v)
        st.become(out)
        return res

    def aged(self, v, st):
        """v was built up while the state evolved: what it names may have been renamed since"""
        if v.o:
            more = frozenset(o.old() for o in v.o if o.rec in (0, 2) and o.root == 'A' and o.old() in st.store)
            more = (more | frozenset(o.past() for o in v.o if o.rec != 3 and o.root == 'A' and o.past() in st.store)) - v.o
            if more:
                return v.with_(o=v.o | more)
        return v

    def cont(self, st, o):
        c = self.I.cont(st, o)
        if o.kind == 'view':
            return self.view_cont(st, o, c)
        return c

    def setcont(self, st, o, c):
        st.store[o] = c

    def add_elem(self, st, o, v, key=None, field='e', n=(0, None)):
        """add n elements v to the elements of o"""
        c = self.cont(st, o)
        single = o.root == 'A' and not o.rec
        lo, hi = c.length()
        if single and n == (1, 1) and field == 'e' and key is None and c.ex is not None and len(c.ex) < 8 and not self.frame.fixing and o.kind in ('set', 'list', 'deque'):
            new = v.with_(ub=0, sym=None)
            if o.kind != 'set' or not c.ex:
                st.store[o] = I.Cont(c.ex + (new,), c.e, c.k, c.a)
                return
            try:
                x, olds = new.const(), [y.const() for y in c.ex]
                st.store[o] = c if x in olds else I.Cont(c.ex + (new,), c.e, c.k, c.a)
                return
            except KeyError:
                pass
        if o.kind in ('set', 'dict', 'frozenset'):
            lo = max(min(lo, 1), 1 if single and n[0] > 0 else 0)
        elif single:
            lo += n[0]
        ln = (lo, None if hi is None or n[1] is None else hi + n[1])
        v = v.with_(ub=0, sym=None)
        if c.ex is not None:
            c = c.weak()
        e, k = c.e, c.k
        if field == 'e':
            e = join(e, v)
        if key is not None:
            k = join(k, key.with_(ub=0, sym=None))
        st.store[o] = I.Cont(None, e, k, c.a, False, ln)

    def receiver_sym(self, node, st):
        e = node
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                e = e.func.value
            elif e.args:
                e = e.args[0]
        elif isinstance(e, ast.AugAssign):
            e = e.target
        elif isinstance(e, ast.Subscript) or isinstance(e, ast.Attribute):
            e = e.value
        if isinstance(e, ast.Name):
            v = self.peek(e.id, st)
            return v.sym if v is not None else None
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Name):
            v = self.peek(e.slice.id, st)
            if v is not None and v.sym is not None and v.sym[0] == 'it':
                return ('elt', v.sym)
        return None

    def fl_next_iteration(self, st, sym, restart):
        for o, f in list(st.fl.items()):
            if any(isinstance(x, tuple) and (x[1] == sym or x[1] == ('elt', sym)) for x in f):
                g = set()
                for x in f:
                    if isinstance(x, tuple) and (x[1] == sym or x[1] == ('elt', sym)):
                        g.add('Y' if restart else ('Yo', x[1]))
                    else:
                        g.add(x)
                st.fl[o] = frozenset(g)

    def use(self, role, node, *vals):
        """record the operands of an operation, joined over every visit of the node in this context"""
        U = self.I.uses
        if U is None or self.I.prot:
            return
        k = (self.ctxkey, role, node)
        old = U.get(k)
        if old is None:
            U[k] = (self.frame.fn, vals, [self.describe(v) for v in vals])
        elif old[1] != vals:
            vals = tuple(join(a, b) for a, b in zip(old[1], vals))
            U[k] = (old[0], vals, [self.describe(v) for v in vals])

    def ordered(self, st, node, e):
        """the entries e are compared with each other (sorting, heaps, extremes)"""
        if self.I.uses is None or self.I.prot:
            return
        self.I.entries[(self.ctxkey, node)] = (self.frame.fn, self.unordered(st, e, 3))

    def unordered(self, st, v, depth):
        """why two values of this kind can never be put in order, once everything before them ties; None when they can"""
        if v.u or v.is_bot() or depth < 0:
            return None
        if v.b or v.i is not None or v.f is not None or v.s is not None:
            return None
        if v.n:
            return None if v.o else 'None'
        why = None
        for o in v.o:
            if o.kind in ('dict', 'func', 'gen', 'class', 'range'):
                w = o.kind
            elif o.kind == 'inst' and hasattr(o.data, 'methods') and not self.I.proj.has_unknown_base(o.data) and not any(
                    self.I.proj.find_method(o.data, m) for m in ('__lt__', '__gt__')):
                w = o.data.name
            elif o.kind in ('tuple', 'list') and self.cont(st, o).ex is not None:
                w = None
                for i, c in enumerate(self.cont(st, o).ex):
                    w = self.unordered(st, c, depth - 1)
                    if w is not None:
                        w = 'item %d of the entry: %s' % (i, w)
                        break
                    if not self.ties(st, c, depth):
                        break
            else:
                return None
            if w is None:
                return None
            why = w
        return why

    def ties(self, st, v, depth):
        """different entries may agree in this component (weights, vertices, missing values); integers may be counters"""
        if depth < 0 or v.is_bot():
            return False
        if v.u or v.n or v.f is not None or v.b:
            return True
        if v.o and v.i is None and v.s is None:
            return all(o.kind in ('tuple', 'list', 'set') and (self.cont(st, o).ex is None or all(
                self.ties(st, c, depth - 1) for c in self.cont(st, o).ex)) for o in v.o)
        return False

    def describe(self, v):
        return v

    def effect(self, node, *e):
        if e not in self.effects:
            self.effects[e] = [(self.frame.fn, node)]

    def mutate(self, st, o, node, how):
        if o.kind in ('tuple', 'range', 'func', 'class', 'lib', 'ext', 'extattr', 'builtin', 'bmeth', 'pmeth', 'frozenset'):
            return
        m = st.must.get(o)
        if m:
            # what is in order is a heap, and heapq keeps it one
            st.must[o] = m - {'S', 'H'} | {'H'} if how.startswith('heapq.') and m & {'S', 'H'} else m - {'S', 'H'}
        f = st.fl.get(o)
        if f:
            ms = self.receiver_sym(node, st)
            if any(x == 'Y' or x[0] == 'Y' or (x[0] == 'Yo' and x[1] != ms) for x in f if x == 'Y' or isinstance(x, tuple)):
                self.I.event('ymut', node, '%s of an object already yielded' % how, o)
            if o.rec == 0:
                for x in f:
                    if isinstance(x, tuple) and x[0] == 'R' and not self.own_change(x[2], x[3], node):
                        self.I.event('rmut', node, '%s of the object recorded in %s' % (how, x[2]), x)
        if o.root in ('P', 'G', 'D'):
            k = o
            if k not in self.muts or resizing(k, how) and not resizing(k, self.muts[k][0]):
                self.muts[k] = (how, [(self.frame.fn, node)])
            if o.root in ('G', 'D'):
                self.I.event('gmut', node, '%s of %s' % (how, o.key), o)
        if self.iterating:
            self.in_iteration(st, o, node, how)
        self.I.hook('mutate', node, st=st, obj=o, how=how)

    def in_iteration(self, st, o, node, how):
        """marks the state when o, resized here, is what an enclosing loop runs over"""
        if not resizing(o, how):
            return
        for s, key, it0, itk, fr in self.iterating:
            if o.kind == 'list' and from_behind(s, how):
                continue
            if fr is self.frame and same_place(s, node):
                if not known_member(s, node, how):
                    st.env[key] = TRUE
                    self.I.resized.setdefault(s, (how, node))
                continue
            it = it0 if itk is None else st.env.get(itk, it0)
            if it.u or it.n or not it.o:
                continue
            base = set()
            for x in it.o:
                self.iter_base(st, x, base, 0)
            if o in base and all(x == o or x.kind in ('tuple', 'range') for x in base) and not o.rec and (o.root != 'P' or 'e' not in o.key[2:]):
                if known_member(s, node, how):
                    continue
                st.env[key] = TRUE
                self.I.resized.setdefault(s, (how, node))

    def iter_base(self, st, x, out, depth):
        src = self.cont(st, x).a.get('src') if x.kind in ('view', 'iter') and depth < 4 else None
        if src is not None:
            for y in src.o:
                self.iter_base(st, y, out, depth + 1)
        else:
            out.add(x)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        """returns the normal exit state or None"""
        for s in stmts:
            if st is None or st.dead:
                return None
            st = self.stmt(s, st)
        return st if st is not None and not st.dead else None

    def tick(self):
        self.I.steps += 1
        if self.I.steps > self.I.budget:
            raise I.Budget()

    def stmt(self, s, st):
        self.tick()
        self.I.visited_nodes.add(s)
        if self.trys:
            self.push_try_state(st)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.I.unsupported[type(s).__name__] = self.I.unsupported.get(type(s).__name__, 0) + 1
            return st
        if st.tests and isinstance(s, (ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)) or \
                isinstance(s, ast.If) and disturbs(s.test):
            self.disturbed(st)
        r = m(s, st)
        if r is not None and r.dead:
            return None
        if r is not None and r.tests and not isinstance(s, ast.If) and disturbs(s):
            self.disturbed(r)
        return r

    def disturbed(self, st):
        for k, t in list(st.tests.items()):
            if t[2]:
                del st.tests[k]

    def remember_test(self, name, e, st, seen):
        """name was just set to e: testing name later is testing e, as long as nothing e reads changes"""
        if any(name in sc for sc in self.comp) or name in self.frame.fn.globals_ or name in self.frame.fn.nonlocals:
            return
        reads, heap, calls, todo = set(), False, [], [e]
        while todo:
            x = todo.pop()
            if isinstance(x, ast.Call):
                if not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance') and not x.keywords):
                    if x not in seen:
                        return
                    calls.append(x)
                    continue
                if x.func.id == 'len':
                    heap = True
                else:
                    todo.append(x.args[0])
                    continue
                todo.extend(x.args)
            elif isinstance(x, (ast.Subscript, ast.Attribute)):
                heap = True
                todo.extend(y for y in ast.iter_child_nodes(x) if isinstance(y, ast.expr))
            elif isinstance(x, ast.Name):
                if any(x.id in sc for sc in self.comp):
                    return
                reads.add(x.id)
                v = st.env.get((self.frame.fn.uid, x.id))
                if v is None:
                    return
                if v.o or v.u:
                    heap = True
            elif isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Constant, ast.Tuple, ast.Set, ast.List)):
                todo.extend(y for y in ast.iter_child_nodes(x) if isinstance(y, ast.expr))
            else:
                return
        if name in reads or not (reads or calls) or reads & self.shared_names():
            return
        vals = {}
        for c in calls:
            v = seen[c]
            if v.o:
                return
            vals[c] = v
        st.tests[(self.frame.fn.uid, name)] = (e, frozenset(reads), heap, vals)

    def shared_names(self):
        """names that functions nested in this one may rebind"""
        fn = self.frame.fn
        r = SHARED.get(fn.node)
        if r is None:
            r = SHARED[fn.node] = frozenset(y for x in ast.walk(fn.node) if isinstance(x, (ast.Nonlocal, ast.Global)) for y in x.names)
        return r

    def push_try_state(self, st):
        # implicit exceptions: any handler of the innermost try may be entered from any statement boundary
        t = self.trys[-1]
        for i in range(len(t.handlers)):
            t.states[i] = I.jstate(t.states[i], st.copy())

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        if isinstance(s.value, ast.Call) and not st.dead:
            return self.through(s.value, st, None)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Assign(self, s, st):
        t0 = s.targets[0]
        seen = None
        if len(s.targets) == 1 and isinstance(t0, ast.Name) and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Call, ast.Name)):
            save, self.calls_seen = self.calls_seen, {}
            seen = self.calls_seen
            try:
                v = self.ev(s.value, st)
            finally:
                self.calls_seen = save
        else:
            v = self.ev(s.value, st)
        if st.dead:
            return None
        for t in s.targets:
            self.assign(t, v, st, s.value)
        if v.o and s in self.I.record_statements():
            for t in s.targets:
                self.record(t, s.value, v, st)
        if seen is not None:
            self.remember_test(t0.id, s.value, st, seen)
        return st

    def record(self, t, e, v, st):
        """what is recorded by reference along with an improvement"""
        if isinstance(e, ast.IfExp):
            self.record(t, e.body, v, st)
            if isinstance(e.orelse, (ast.Name, ast.Attribute, ast.Subscript)) and not isinstance(e.body, (ast.Name, ast.Attribute, ast.Subscript)):
                self.record(t, e.orelse, v, st)
        elif isinstance(e, (ast.Name, ast.Attribute)) or isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            self.record_objects(st, v, ('R', None, ast.unparse(t), self.frame.uid, e.lineno), e, 0)
        elif isinstance(e, (ast.Tuple, ast.List)):
            for o in v.o:
                c = self.cont(st, o) if o.kind in ('tuple', 'list') else None
                if c is not None and c.ex is not None and len(c.ex) == len(e.elts):
                    sub = t.elts if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(e.elts) else [t]*len(e.elts)
                    for tt, ee, vv in zip(sub, e.elts, c.ex):
                        self.record(tt, ee, vv, st)
        else:
            # a copy: its entries are still shared
            for o in v.o:
                if o.kind in ('list', 'dict', 'set', 'deque', 'tuple'):
                    for x in self.cont_vals(self.cont(st, o)):
                        self.record_objects(st, x, ('R', None, ast.unparse(t), self.frame.uid, e.lineno), e, 1)

    def record_objects(self, st, v, mark, e, depth):
        for o in v.o:
            if o.kind in ('list', 'dict', 'set', 'deque', 'inst') and o.rec == 0:
                st.fl[o] = st.fl.get(o, frozenset()) | {mark}
                self.I.hook('recorded', e, st=st, obj=o)
            if depth < 2 and o.kind in ('list', 'dict', 'set', 'deque', 'tuple'):
                for x in self.cont_vals(self.cont(st, o)):
                    self.record_objects(st, x, mark, e, depth + 1)

    def own_change(self, place, uid, node):
        """the recorded object is changed through the place that records it"""
        at = [fr for fr in self.frames]
        for i, fr in enumerate(at):
            if fr.uid != uid:
                continue
            n = node if i + 1 == len(at) else at[i + 1].call
            if n is not None and not isinstance(n, tuple):
                try:
                    if place in ast.unparse(n):
                        return True
                except Exception:
                    return True
        return False

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if st.dead:
                return None
            self.assign(s.target, v, st, s.value)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t, st)
        elif isinstance(t, ast.Subscript):
            tb = self.hold(st, self.ev(t.value, st), t.slice)
            idx = self.ev_index(t.slice, st)
            base = self.take(st, tb)
            cur = self.load_subscript(base, idx, st, t)
        else:
            base = self.ev(t.value, st)
            cur = self.load_attr(base, t.attr, st, t)
        tc = self.hold(st, cur, s.value)
        tb = self.hold(st, base, s.value) if not isinstance(t, ast.Name) else None
        rhs = self.ev(s.value, st)
        if not isinstance(t, ast.Name):
            base = self.take(st, tb)
        cur = self.take(st, tc)
        if st.dead:
            return None
        inplace = frozenset(o for o in cur.o if o.kind in ('list', 'set', 'dict', 'deque', 'bytearray'))
        if inplace:
            for o in inplace:
                ok = (isinstance(s.op, (ast.Add, ast.Mult)) and o.kind in ('list', 'deque', 'bytearray')) or \
                     (isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and o.kind in ('set', 'dict'))
                if ok:
                    self.mutate(st, o, s, 'augmented assignment')
                    oth = [x for x in rhs.o]
                    d = self.cont(st, oth[0]) if len(oth) == 1 and rhs.only_objs() and oth[0].kind in ('list', 'tuple') and len(inplace) == 1 else None
                    if d is not None and d.ex is not None and o.kind == 'list' and isinstance(s.op, ast.Add) and len(d.ex) <= 4:
                        for x in d.ex:
                            self.add_elem(st, o, x, n=(1, 1))
                    elif isinstance(s.op, ast.Add):
                        self.add_elem(st, o, self.elems(st, rhs, s), n=self.len_of(st, rhs) if len(inplace) == 1 else (0, None))
                    elif isinstance(s.op, (ast.BitOr, ast.BitXor)):
                        self.add_elem(st, o, self.elems(st, rhs, s), self.keys(st, rhs) if o.kind == 'dict' else None, n=(0, self.len_of(st, rhs)[1]))
                        if isinstance(s.op, ast.BitXor):
                            self.weaken(st, o)
                    else:
                        c = self.cont(st, o)
                        if c.ex is not None or c.ne or c.ln:
                            st.store[o] = I.Cont(None, c.elems(), c.k, c.a)
            res = cur.with_(o=inplace, n=False, ub=0)
            rest = cur.with_(o=cur.o - inplace, ub=0)
            if not rest.is_bot():
                res = join(res, self.binop(s.op, rest, rhs, st, s))
        else:
            rg = [o for o in cur.o if o.kind == 'rgn']
            if rg and any(o.kind in ('list', 'set', 'dict', 'tuple', 'deque') for o in rhs.o):
                for o in rg:
                    self.mutate(st, o, s, 'augmented assignment')
                res = cur
            else:
                res = self.binop(s.op, cur, rhs, st, s, aug=True)
        if st.dead:
            return None
        if isinstance(t, ast.Name):
            self.set_name(t.id, res.with_(ub=0), st)
            self.reassigned(t.id, st)
        elif isinstance(t, ast.Subscript):
            self.store_subscript(base, idx, res, st, t)
        else:
            self.store_attr(base, t.attr, res, st, t)
        return st

    def assign(self, t, v, st, src=None):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v.with_(ub=0) if v.ub else v, st)
            self.reassigned(t.id, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        elif isinstance(t, ast.Subscript):
            tv = self.hold(st, v, t.value, t.slice)
            tb = self.hold(st, self.ev(t.value, st), t.slice)
            idx = self.ev_index(t.slice, st)
            base = self.take(st, tb)
            self.store_subscript(base, idx, self.take(st, tv), st, t)
        elif isinstance(t, ast.Attribute):
            tv = self.hold(st, v, t.value)
            base = self.ev(t.value, st)
            self.store_attr(base, t.attr, self.take(st, tv), st, t)

    def unpack(self, t, v, st):
        n = len(t.elts)
        self.use('unpack', t, v)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        parts = None
        if not star:
            acc = None
            okall = bool(v.o)
            for o in v.o:
                c = self.cont(st, o) if o.kind in CONTAINER or o.kind == 'rgn' else None
                if c is not None and c.ex is not None and len(c.ex) == n:
                    cur = list(c.ex)
                elif c is not None and c.ex is not None and o.kind == 'tuple':
                    self.I.hook('unpack_mismatch', t, st=st, obj=o, n=n, have=len(c.ex))
                    continue
                else:
                    e = self.elems(st, vobj(o), t)
                    cur = [e] * n
                acc = cur if acc is None else [join(a, b) for a, b in zip(acc, cur)]
            if acc is not None:
                parts = acc
                if v.u:
                    parts = [join(p, UNK) for p in parts]
        if parts is None:
            if v.o:
                e = self.elems(st, v, t)
            else:
                e = UNK
            parts = []
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    o = self.alloc(st, x, 'list', I.Cont(e=e))
                    parts.append(vobj(o))
                else:
                    parts.append(e)
        if v.f is not None or v.i is not None or v.n or v.b:
            self.I.hook('unpack_scalar', t, st=st, val=v, n=n)
        for e, p in zip(t.elts, parts):
            self.assign(e, p, st)

    def set_name(self, name, v, st):
        for sc in reversed(self.comp):
            if name in sc:
                st.env[sc[name]] = v
                return
        fn = self.frame.fn
        if name in fn.globals_:
            self.I.event('gwrite', fn.node, 'assignment to global %s' % name)
            return
        uid = fn.uid
        if name in fn.nonlocals:
            p = fn.parent
            while p is not None and name not in p.locals:
                p = p.parent
            if p is not None:
                uid = p.uid
        st.env[(uid, name)] = v

    def reassigned(self, name, st):
        """what was known about other variables through the old value of this one is void"""
        if st.tests:
            for k, t in list(st.tests.items()):
                if k[1] == name or name in t[1]:
                    del st.tests[k]
        if st.cor:
            for k, c in list(st.cor.items()):
                d = frozenset(x for x in c if x[0][1] != name)
                if k[1] == name or not d:
                    del st.cor[k]
                elif d != c:
                    st.cor[k] = d

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop((self.frame.fn.uid, t.id), None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                idx = self.ev_index(t.slice, st)
                for o in base.o:
                    if o.kind == 'inst':
                        self.call_dunder(o, '__delitem__', [idx], st, t)
                        continue
                    self.I.hook('delitem', t, st=st, obj=o, idx=idx)
                    self.mutate(st, o, t, 'item deletion')
                    self.weaken(st, o)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                for o in base.o:
                    self.mutate(st, o, t, 'attribute deletion')
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.dead:
            return None
        if v.ub:
            v = v.with_(ub=0)
        self.frame.rets.append((st, v, s))
        self.I.hook('return', s, st=st, val=v, frame=self.frame)
        return None

    def s_Raise(self, s, st):
        name = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.ev(a, st)
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
                r = None
                if name in self.frame.fn.locals:
                    name = 'Exception'
                else:
                    r = self.proj.resolve(self.frame.module, name)
                    if r is None:
                        self.I.event('noname', s, name)
                    elif r[0] == 'class':
                        name = r[1].name
            elif isinstance(e, ast.Attribute):
                name = e.attr
        else:
            name = self.reraise or 'Exception'
        if not st.dead:
            self.do_raise(name or 'Exception', st, s)
        return None

    reraise = None

    def do_raise(self, name, st, node):
        self.I.hook('raise', node, st=st, exc=name)
        for t in reversed(self.trys):
            for i, h in enumerate(t.handlers):
                if exc_matches(exc_names(h.type), name):
                    t.states[i] = I.jstate(t.states[i], st.copy())
                    return
        self.raises.setdefault(name, (self.frame.fn, node))

    def s_Assert(self, s, st):
        t, f = self.cond(s.test, st)
        if f is not None:
            self.do_raise('AssertionError', f, s)
        return t

    def s_If(self, s, st):
        t, f = self.cond(s.test, st)
        a = self.block(s.body, t) if t is not None else None
        b = (self.block(s.orelse, f) if s.orelse else f) if f is not None else None
        return I.jstate(a, b)

    def s_With(self, s, st):
        for w in s.items:
            v = self.ev(w.context_expr, st)
            if w.optional_vars is not None:
                self.assign(w.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        ctx = TryCtx(s.handlers, len(self.frames))
        entry = st.copy()
        for i in range(len(ctx.handlers)):
            ctx.states[i] = entry.copy()
        self.trys.append(ctx)
        guard = any(catches_errors(h.type) for h in s.handlers)
        self.I.prot += guard
        try:
            out = self.block(s.body, st)
        finally:
            self.I.prot -= guard
        self.trys.pop()
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        res = out
        for i, h in enumerate(s.handlers):
            hs = ctx.states[i]
            if hs is None:
                continue
            hs = hs.copy()
            if h.name:
                hs.env[(self.frame.fn.uid, h.name)] = UNK
            save, self.reraise = self.reraise, (exc_names(h.type) or ['Exception'])[0]
            ho = self.block(h.body, hs)
            self.reraise = save
            res = I.jstate(res, ho)
        if s.finalbody:
            if res is not None:
                res = self.block(s.finalbody, res)
            else:
                self.block(s.finalbody, entry.copy())
        return res

    def s_FunctionDef(self, s, st):
        fi = self.proj.func_of_node.get(s)
        if fi is None:
            return st
        for p, d in fi.defaults.items():
            st.env[(fi.uid, '=' + p)] = self.ev(d, st)
        for d in s.decorator_list:
            self.ev(d, st)
        self.set_name(s.name, vobj(Obj('func', ('F', fi.uid), fi)), st)
        return st

    def s_ClassDef(self, s, st):
        self.set_name(s.name, UNK, st)
        return st

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            if tgt in self.proj.modules:
                v = vobj(Obj('lib', ('M', tgt), tgt))
            else:
                v = vobj(Obj('ext', ('M', tgt), tgt))
            self.set_name(nm, v, st)
        return st

    def s_ImportFrom(self, s, st):
        for a in s.names:
            src = s.module or ''
            if src in self.proj.modules:
                r = self.proj.modattr(src, a.name)
                v = self.I.of_res(r)
                if v is None:
                    self.I.event('noattr', s, '%s.%s' % (src, a.name))
                    v = UNK
            else:
                v = vobj(Obj('extattr', ('X', src, a.name), (src, a.name)))
            self.set_name(a.asname or a.name, v, st)
        return st

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global

    def s_Break(self, s, st):
        self.frame.loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st):
        self.frame.loops[-1][1].append(st)
        return None

    # -- loops
    def generation(self, st, node, run):
        """run(), with the objects that earlier executions of the same loop made renamed first, so that they are kept apart from those of this one"""
        known = self.I.loopsites.setdefault(node, {})
        for o in sorted((o for o in known if o in st.store or o.old() in st.store or Obj(o.kind, o.key, o.data, 2) in st.store), key=lambda o: (o.kind, str(o.key))):
            self.retire(st, o)
        log, self.alloclog = self.alloclog, set()
        try:
            return run()
        finally:
            for o in self.alloclog:
                known[o] = True
            if log is not None:
                log |= self.alloclog
            self.alloclog = log

    def retire(self, st, o):
        t = o.past()
        for x in (o, Obj(o.kind, o.key, o.data, 2), o.old()):
            if x in st.store:
                self.age(st, x, t)

    def loop(self, entry, body, maxit=40):
        """entry: State at the loop head.  body(head)->(out_state or None, exit_state or None).
        returns (exit_on_test, breaks)"""
        head = entry.copy()
        ctx = ([], [])
        n = 0
        while True:
            n += 1
            del ctx[0][:]
            del ctx[1][:]
            self.frame.loops.append(ctx)
            self.frame.fixing += 1
            out, ex = body(head.copy())
            self.frame.fixing -= 1
            self.frame.loops.pop()
            back = out
            for c in ctx[1]:
                back = I.jstate(back, c)
            if back is None:
                break
            new = I.jstate(head, back, softnew=True)
            if n >= 3:
                new = I.jstate(head, new, f=widen)
            if new.same(head):
                break
            head = new
            if n >= maxit:
                break
        brk = None
        for b in ctx[0]:
            brk = I.jstate(brk, b)
        return ex, brk, back

    def s_While(self, s, st):
        return self.generation(st, s, lambda: self.do_while(s, st))

    def do_while(self, s, st):
        ctrs = [(x, ('it', self.node_id(s) + (x,))) for x in counters(s)]
        for x, sym in ctrs:
            self.fl_next_iteration(st, sym, True)

        def body(h):
            for x, sym in ctrs:
                k = (self.frame.fn.uid, x)
                v = h.env.get(k)
                if v is not None and not v.o and not v.u:
                    h.env[k] = v.with_(sym=sym)
                self.fl_next_iteration(h, sym, False)
            t, f = self.cond(s.test, h)
            out = self.block(s.body, t) if t is not None else None
            return out, f
        brk0 = None
        for _ in range(self.I.peel):
            # a decided test: the iteration happens (or the loop is over), so it is analysed on its own
            t, f = self.cond(s.test, st.copy())
            if t is not None and f is not None:
                break
            if t is None:
                if f is not None and s.orelse:
                    f = self.block(s.orelse, f)
                return I.jstate(f, brk0)
            st, b = self.once(s.body, t)
            brk0 = I.jstate(brk0, b)
            if st is None:
                return brk0
            st = st.copy()
        ex, brk, _ = self.loop(st, body)
        if ex is not None:
            ex = ex.copy()
            if s.orelse:
                ex = self.block(s.orelse, ex)
        return I.jstate(I.jstate(ex, brk), brk0)

    def once(self, body, st):
        """one iteration: (state at the next loop head, state after a break)"""
        ctx = ([], [])
        self.frame.loops.append(ctx)
        out = self.block(body, st)
        self.frame.loops.pop()
        for y in ctx[1]:
            out = I.jstate(out, y)
        brk = None
        for y in ctx[0]:
            brk = I.jstate(brk, y)
        return out, brk

    def enumerates(self, s, st):
        """for i, x in enumerate(xs): the arguments of enumerate"""
        c = s.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and 1 <= len(c.args) <= 2 and not c.keywords and \
                isinstance(s.target, (ast.Tuple, ast.List)) and len(s.target.elts) == 2 and \
                not any(isinstance(x, ast.Starred) for x in s.target.elts + c.args):
            f = self.ev(c.func, st)
            if len(f.o) == 1 and f.only_objs() and next(iter(f.o)).kind == 'builtin' and next(iter(f.o)).data == 'enumerate':
                self.I.visited_nodes.add(c)
                return c.args
        return None

    def for_target(self, s, x, k, st):
        """assign the targets of a loop: x the element, k the counter of enumerate, if any"""
        if k is None:
            self.assign(s.target, x, st)
        else:
            tok = self.hold(st, x)
            self.assign(s.target.elts[0], k, st)
            self.assign(s.target.elts[1], self.take(st, tok), st)

    def s_For(self, s, st):
        en = self.enumerates(s, st)
        if en is not None:
            it, *k = self.ev_all(en, st)
            i = k[0].ints() or ANY_INT if k else (0, 0, 0)
            self.counting[s] = i
        else:
            self.counting.pop(s, None)
            it = self.ev(s.iter, st)
        if st.dead:
            return None
        tok = self.hold(st, it)
        return self.generation(st, s, lambda: self.do_for(s, st, self.take(st, tok)))

    def do_for(self, s, st, it):
        start = self.counting.get(s)

        def nth(i):
            """the value of the counter of enumerate in iteration i"""
            if start is None:
                return None
            if i is None:
                return mkint(start[0], None).with_(sym=('nth', self.node_id(s)))
            return mkint(None if start[0] is None else start[0] + i, None if start[1] is None else start[1] + i)
        # small literal sequence: unroll
        if len(it.o) == 1 and not it.u and not it.n and it.i is None and it.s is None:
            o = next(iter(it.o))
            c = self.cont(st, o) if o.kind in (('list', 'tuple', 'range') if self.I.peel else ('list', 'tuple')) else None
            if c is not None and c.ex is not None and 1 <= len(c.ex) <= 6 and o.root == 'A' and not o.rec and not self.mutates_name(s):
                cur = st
                brk = None
                for i, x in enumerate(c.ex):
                    cur = cur.copy()
                    now = cur.store.get(o)
                    if now is not None and now.ex is not None and len(now.ex) == len(c.ex):
                        x = now.ex[i]
                    self.for_target(s, x, nth(i), cur)
                    self.I.hook('iter', s, st=cur, iterval=it, elem=x)
                    cur, b = self.once(s.body, cur)
                    brk = I.jstate(brk, b)
                    if cur is None:
                        break
                if cur is not None and s.orelse:
                    cur = self.block(s.orelse, cur)
                return I.jstate(cur, brk)
        brk0 = None
        if self.I.peel and it.only_objs() and len(it.o) == 1:
            # the first elements of a table one by one
            t = self.table(st, next(iter(it.o)))
            if t and not self.mutates_name(s):
                for i, x in enumerate(t[:self.I.peel]):
                    st = st.copy()
                    self.for_target(s, vconst(x), nth(i), st)
                    self.I.hook('iter', s, st=st, iterval=it, elem=vconst(x))
                    st, b = self.once(s.body, st)
                    brk0 = I.jstate(brk0, b)
                    if st is None:
                        return brk0
        itsym = ('it', self.node_id(s))
        self.fl_next_iteration(st, itsym, True)
        entry = st
        nonempty = self.nonempty(st, it)
        it0 = it
        itk = None
        if any(o.root == 'A' for o in it.o):
            # the iterated object keeps its identity although the body may create others at the same place
            itk = (self.frame.fn.uid, '~for%s:%s' % (s.lineno, s.col_offset))
            st.env[itk] = it

        def body(h):
            h2 = h.copy()
            it = it0 if itk is None else h2.env.get(itk, it0)
            e = self.elems(h2, it, s.iter)
            ex = h2.copy()
            if h2.dead:
                return None, None
            if self.endless(it, h2):
                ex = None
            if e.is_bot() and not it.u:
                # nothing to iterate over
                return None, ex
            if e.sym is None:
                e = e.with_(sym=itsym)
            self.fl_next_iteration(h2, itsym, False)
            self.for_target(s, e, nth(None), h2)
            self.I.hook('iter', s, st=h2, iterval=it, elem=e)
            h2.env[dirty] = FALSE
            return self.block(s.body, h2), ex
        out = None
        if self.in_order(st, it):
            x = gathers(s)
            w = self.peek(x, st) if x else None
            if w is not None and len(w.o) == 1 and not w.u:
                out, = w.o
                if out.kind != 'list' or out.root != 'A' or out.rec or self.cont(st, out).length()[1] != 0:
                    out = None
        dirty = (self.frame.fn.uid, '~resized%s:%s' % (s.lineno, s.col_offset))
        self.iterating.append((s, dirty, it0, itk, self.frame))
        ex, brk, back = self.loop(st, body)
        self.iterating.pop()
        if back is not None and back.env.get(dirty, FALSE).b & 2:
            how, node = self.I.resized.get(s, ('resized', s))
            self.I.event('itermut', s, '%s at line %s' % (how, getattr(node, 'lineno', '?')), node)
        for x in (ex, brk, back):
            if x is not None:
                x.env.pop(dirty, None)
                if out is not None and out in x.store:
                    x.must[out] = x.must.get(out, frozenset()) | {'S'}
        if itk is not None:
            for x in (ex, brk, back):
                if x is not None:
                    x.env.pop(itk, None)
        if nonempty and ex is not None:
            # at least one iteration: the exit state comes from the back edge only
            if back is not None:
                ex = I.jstate(None, back.copy())
                ex = ex.copy() if ex is not None else None
            else:
                ex = None
        if ex is not None:
            ex = ex.copy()
            if s.orelse:
                ex = self.block(s.orelse, ex)
        return I.jstate(I.jstate(ex, brk), brk0)

    def membership(self, lv, rv, st):
        """True / False if `lv in rv` always / never holds, None if unknown"""
        if not rv.only_objs() or not rv.o:
            return None
        got = set()
        for o in rv.o:
            if o.kind not in ('list', 'tuple', 'set', 'frozenset', 'dict', 'deque') or o.root not in 'AG':
                return None
            c = self.cont(st, o)
            lo, hi = c.length()
            e = c.k if o.kind == 'dict' else c.elems()
            if hi == 0:
                got.add(False)
            elif c.ex is not None and o.kind in ('list', 'tuple') and lv.only_int() and e.only_int() and self.I.peel:
                same = [lv.i[0] is not None and lv.i[0] == lv.i[1] == x.i[0] == x.i[1] for x in c.ex]
                if any(same):
                    got.add(True)
                elif all(self.i_meet(lv.i, x.i) is None for x in c.ex):
                    got.add(False)
                else:
                    return None
            elif lv.only_int() and e.only_int():
                if lo > 0 and lv.i[0] is not None and lv.i[0] == lv.i[1] == e.i[0] == e.i[1]:
                    got.add(True)
                elif self.i_meet(lv.i, e.i) is None:
                    got.add(False)
                else:
                    return None
            else:
                return None
        return got.pop() if len(got) == 1 else None

    def mutates_name(self, s):
        # iterating a named literal whose name is touched in the body
        if isinstance(s.iter, ast.Name):
            for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
                if isinstance(n, ast.Name) and n.id == s.iter.id:
                    return True
        return False

    def endless(self, it, st=None):
        """an iterator of itertools that never stops, or a generator without a normal end"""
        return bool(it.o) and not (it.u or it.n or it.i is not None or it.s is not None) and all(
            o.kind == 'iter' and o.root == 'A' and o.key[-1] == 'count' or o.kind == 'gen' and o.root == 'A' and st is not None and self.never_ends(st, o) for o in it.o)

    def never_ends(self, st, o):
        """a generator whose body has no normal end: it raises, or goes on for ever"""
        v = self.cont(st, o).a.get('~ends')
        return v is not None and v.b == 1 and not v.u

    def nonempty(self, st, it):
        if it.u or it.n or it.s is not None or it.i is not None or not it.o:
            return False
        for o in it.o:
            c = self.cont(st, o)
            if o.kind == 'range' and c.ne:
                continue
            if o.root == 'G' and c.ne and o not in st.store:
                continue
            if o.kind in CONTAINER and o.kind != 'iter' and o.root == 'A' and c.length()[0] > 0:
                continue
            return False
        return True

    # ------------------------------------------------------------------ conditions
    def cond(self, test, st):
        """-> (state if true or None, state if false or None)"""
        self.tick()
        self.I.visited_nodes.add(test)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur = st
                falses = None
                for v in test.values:
                    t, f = self.cond(v, cur)
                    falses = I.jstate(falses, f)
                    if t is None:
                        return None, falses
                    cur = t
                return cur, falses
            cur = st
            trues = None
            for v in test.values:
                t, f = self.cond(v, cur)
                trues = I.jstate(trues, t)
                if f is None:
                    return trues, None
                cur = f
            return trues, cur
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.cond(test.operand, st)
            return f, t
        if isinstance(test, ast.Compare):
            if len(test.ops) == 1:
                return self.cond_cmp(test.left, test.ops[0], test.comparators[0], st, test)
            cur = st
            falses = None
            left = test.left
            for op, right in zip(test.ops, test.comparators):
                t, f = self.cond_cmp(left, op, right, cur, test)
                falses = I.jstate(falses, f)
                if t is None:
                    return None, falses
                cur = t
                left = right
            return cur, falses
        if isinstance(test, ast.Constant):
            return (st, None) if test.value else (None, st)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name) and not test.keywords:
            v = self.load_name(test.args[0], st)
            yes, no = self.isinstance_split(v, test.args[1], st)
            a = b = None
            if yes is not None and not yes.is_bot():
                a = st.copy()
                self.set_name(test.args[0].id, yes, a)
            if no is not None and not no.is_bot():
                b = st.copy()
                self.set_name(test.args[0].id, no, b)
            return a, b
        v = self.ev(test, st)
        if st.dead:
            return None, None
        tb = self.truth(st, v)
        a = st.copy() if tb & 2 else None
        b = st.copy() if tb & 1 else None
        if isinstance(test, (ast.Name, ast.NamedExpr)):
            nm = test.id if isinstance(test, ast.Name) else test.target.id
            if a is not None:
                self.set_name(nm, self.refine_truth(v, True), a)
            if b is not None:
                self.set_name(nm, self.refine_truth(v, False), b)
            if isinstance(test, ast.Name) and not any(nm in sc for sc in self.comp):
                key = (self.frame.fn.uid, nm)
                if key in st.tests:
                    a, b = self.retest(key, a, True), self.retest(key, b, False)
        elif isinstance(test, ast.Call) and not (self.frozen and test in self.frozen):
            if a is not None:
                a = self.through(test, a, True)
            if b is not None:
                b = self.through(test, b, False)
        return a, b

    def through(self, call, st, truth):
        """a test made by a helper (truth: what it returned), or a helper that raises unless its tests fail (None):
        what it says about the variables it was given"""
        fv = self.callee(call.func, st)
        if fv is None or self.tested >= 3:
            return st
        fn, this = fv
        arms = helper_arms(fn, truth is None)
        if arms is None or fn.vararg or fn.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return st
        given = {}
        params = list(fn.params)
        if this is not None:
            if not params:
                return st
            given[params.pop(0)] = this
        for p, x in list(zip(params, call.args)) + [(k.arg, k.value) for k in call.keywords]:
            given[p] = x
        keep = {k: v for k, v in st.env.items() if k[0] == fn.uid}
        if keep and fn is self.frame.fn:
            return st
        st = st.copy()
        before = {}
        for p in list(fn.params) + list(fn.kwonly):
            x = given.get(p)
            v = None
            if isinstance(x, ast.Name):
                v, f = self.peek(x.id, st), self.frame.fn
                while v is None and f.parent is not None:
                    f = f.parent
                    v = st.env.get((f.uid, x.id))
                if v is not None:
                    before[p] = (x.id, v)
            elif isinstance(x, ast.Constant):
                v = vconst(x.value)
            elif x is None and p in fn.defaults:
                v = self.default_val(fn, p)
            st.env[(fn.uid, p)] = UNK if v is None else v.with_(ub=0)
        save = self.frame, self.comp, self.frozen
        fr = I.Frame(fn, call)
        self.frames.append(fr)
        self.frame, self.comp, self.frozen = fr, [], dict(self.frozen or {})
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance')):
                self.frozen[x] = UNK
        self.tested += 1
        out, cur = None, st
        try:
            for t, r in arms:
                if cur is None:
                    break
                if t is None:
                    yes, cur = cur, None
                else:
                    yes, cur = self.cond(t, cur)
                if truth is not None and yes is not None:
                    out = I.jstate(out, self.cond(r, yes)[0 if truth else 1] if r is not None else None if truth else yes)
            if truth is None:
                out = cur
        finally:
            self.tested -= 1
            self.frames.pop()
            self.frame, self.comp, self.frozen = save
        if out is None or out.dead:
            return None
        out = out.copy()
        for p, (n, v) in before.items():
            w = out.env.get((fn.uid, p))
            if w is not None and w != v.with_(ub=0):
                self.set_name(n, w.with_(ub=v.ub), out)
        for k in [k for k in out.env if k[0] == fn.uid]:
            del out.env[k]
        out.env.update({k: v for k, v in keep.items()})
        return out

    def callee(self, f, st):
        """the one function of the library that is called, and the name of the object it is a method of"""
        if isinstance(f, ast.Name):
            r = self.peek(f.id, st)
            if r is None:
                fn, seen = self.frame.fn, None
                while fn is not None and seen is None:
                    seen = st.env.get((fn.uid, f.id))
                    fn = fn.parent
                r = seen
            if r is None:
                x = self.proj.resolve(self.frame.fn.module, f.id)
                return (x[1], None) if x and x[0] == 'func' and not x[1].is_gen and not x[1].decorators else None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            v = self.peek(f.value.id, st)
            if v is None or len(v.o) != 1 or not v.only_objs():
                return None
            o = next(iter(v.o))
            if o.kind != 'inst' or not isinstance(o.data, ClassInfo):
                return None
            m = self.proj.find_method(o.data, f.attr)
            return (m, f.value) if m is not None and not m.decorators and not m.is_gen else None
        else:
            return None
        if len(r.o) != 1 or not r.only_objs():
            return None
        o = next(iter(r.o))
        return (o.data, None) if o.kind == 'func' and isinstance(o.data, FuncInfo) and not o.data.is_gen and not o.data.decorators else None

    def retest(self, key, st, truth):
        """the variable is known to be true (false): so is what it was set from"""
        if st is None:
            return None
        t = st.tests.pop(key)
        save, self.frozen = self.frozen, dict(self.frozen or {})
        self.frozen.update(t[3])
        try:
            r = self.cond(t[0], st)[0 if truth else 1]
        finally:
            self.frozen = save
        if r is not None:
            r.tests[key] = t
        return r

    def truth(self, st, v):
        """bitmask 1=may be false, 2=may be true"""
        r = 0
        if v.n:
            r |= 1
        r |= v.b
        if v.i is not None:
            lo, hi, par = v.i
            if (lo is None or lo <= 0) and (hi is None or hi >= 0) and par != 1:
                r |= 1
            if not (lo == 0 and hi == 0):
                r |= 2
        if v.f is not None:
            lo, hi = v.f
            if (lo is None or lo <= 0) and (hi is None or hi >= 0):
                r |= 1
            r |= 2
        if v.s is not None:
            r |= 3 if v.s is True else (1 if '' in v.s else 0) | (2 if any(v.s) else 0)
        if v.u:
            r |= 3
        for o in v.o:
            if o.kind in ('func', 'class', 'builtin', 'extattr', 'bmeth', 'pmeth', 'lib', 'ext', 'gen', 'iter'):
                r |= 2
            elif o.kind == 'inst':
                ci = o.data
                if isinstance(ci, ClassInfo) and not (self.proj.find_method(ci, '__len__') or self.proj.find_method(ci, '__bool__')):
                    r |= 2
                else:
                    r |= 3
            elif o.kind in CONTAINER:
                lo, hi = self.cont(st, o).length()
                r |= (0 if lo else 1) | (0 if hi == 0 else 2)
            else:
                r |= 3
        return r or 3

    def refine_truth(self, v, truth):
        if truth:
            i = v.i
            if i is not None:
                lo, hi, par = i
                if lo == 0:
                    x = mkint(1, hi, par)
                    i = x.i
                elif hi == 0:
                    i = mkint(lo, -1, par).i
            return v.with_(n=False, b=v.b & 2, i=i, ub=0)
        i = v.i
        if i is not None:
            lo, hi, par = i
            if (lo is None or lo <= 0) and (hi is None or hi >= 0) and par != 1:
                i = (0, 0, 0)
            else:
                i = None
        keep = frozenset(o for o in v.o if o.kind not in ('func', 'class', 'builtin', 'gen'))
        return v.with_(b=v.b & 1, i=i, o=keep, ub=0)

    def cond_cmp(self, left, op, right, st, node):
        lv = self.ev(left, st)
        rv = self.ev(right, st)
        if st.dead:
            return None, None
        self.I.hook('compare', node, st=st, left=lv, right=rv, op=op)
        self.use('cmp:' + type(op).__name__, node, lv, rv)
        t = st.copy()
        f = st.copy()
        neg = CMPNEG[type(op)]
        if not self.refine_cmp(left, lv, type(op), right, rv, t):
            t = None
        if not self.refine_cmp(left, lv, neg, right, rv, f):
            f = None
        if t is None and f is None:
            # contradictory information: keep both
            return st.copy(), st.copy()
        return t, f

    def refine_cmp(self, left, lv, op, right, rv, st):
        """assume `left op right` in st; False if impossible"""
        # -- parity refinement:  n % 2 == c  /  n & 1
        if op in (ast.Eq, ast.NotEq):
            for a, bv in ((left, rv), (right, lv)):
                pn = self.parity_name(a)
                if pn is not None:
                    try:
                        c = bv.const()
                    except KeyError:
                        continue
                    if c in (0, 1) and not isinstance(c, bool):
                        want = c if op is ast.Eq else 1 - c
                        v = self.peek(pn, st)
                        if v is not None and v.i is not None:
                            nv = mkint(v.i[0], v.i[1], want)
                            if v.i[2] is not None and v.i[2] != want or nv.i is None:
                                if v.only_int():
                                    return False
                            elif v.only_int():
                                self.set_name(pn, v.with_(i=nv.i), st)
        if op in (ast.In, ast.NotIn):
            if 'alien' in lv.t and rv.o:
                # a value known not to occur in any container of the context
                return op is ast.NotIn
            w = self.membership(lv, rv, st)
            if w is not None and w != (op is ast.In):
                return False
            # constants in literal containers
            vals = None
            try:
                c = lv.const()
                hasc = True
            except KeyError:
                hasc = False
            if not hasc and lv.only_int() and len(rv.o) == 1 and not rv.u and not rv.n:
                o = next(iter(rv.o))
                ct = self.cont(st, o) if o.kind in ('tuple', 'list', 'set', 'frozenset') and o.root == 'A' else None
                if ct is not None and ct.ex is not None and all(x.intlike() for x in ct.ex):
                    x = None
                    for y in ct.ex:
                        z = self.i_meet(lv.i, y.ivl())
                        x = z if x is None else x if z is None else ijoin(x, z)
                    if op is ast.In:
                        if x is None:
                            return False
                        if isinstance(left, ast.Name):
                            self.set_name(left.id, lv.with_(i=x, ub=0), st)
                    else:
                        out = {y.i[0] for y in ct.ex if y.only_int() and y.i[0] is not None and y.i[0] == y.i[1]}
                        lo, hi, par = lv.i
                        step = 1 if par is None else 2
                        while lo is not None and lo in out and (hi is None or lo <= hi):
                            lo += step
                        while hi is not None and hi in out and (lo is None or lo <= hi):
                            hi -= step
                        nv = mkint(lo, hi, par)
                        if nv.i is None:
                            return False
                        if isinstance(left, ast.Name):
                            self.set_name(left.id, lv.with_(i=nv.i, ub=0), st)
                return True
            if hasc and len(rv.o) == 1:
                o = next(iter(rv.o))
                ct = self.cont(st, o) if o.kind in ('tuple', 'list', 'set', 'frozenset') else None
                if ct is not None and ct.ex is not None:
                    try:
                        vals = [x.const() for x in ct.ex]
                    except KeyError:
                        vals = None
                if vals is not None:
                    isin = any(c == x and isinstance(c, bool) == isinstance(x, bool) or c == x for x in vals)
                    return isin == (op is ast.In)
            return True
        if op in (ast.Is, ast.IsNot):
            for a, av, bv in ((left, lv, rv), (right, rv, lv)):
                if bv.only_none():
                    if op is ast.Is:
                        if not (av.n or av.u):
                            return False
                        if isinstance(a, ast.Name):
                            self.set_name(a.id, NONE, st)
                    else:
                        if av.only_none():
                            return False
                        if isinstance(a, ast.Name) and av.n:
                            self.set_name(a.id, av.with_(n=False, ub=0), st)
                    return True
            try:
                same = lv.const() is rv.const()
                return same == (op is ast.Is)
            except KeyError:
                return True
        # ordering / equality
        if 'alien' in lv.t and op is ast.Eq and not rv.n and rv.i is None:
            pass
        li, ri = lv.ivl(), rv.ivl()
        l_int, r_int = lv.intlike(), rv.intlike()
        if op is ast.Eq or op is ast.NotEq:
            try:
                a, b = lv.const(), rv.const()
                return (a == b) == (op is ast.Eq)
            except KeyError:
                pass
            # disjoint types
            if op is ast.Eq:
                if l_int and r_int:
                    x = self.i_meet(li, ri)
                    if x is None:
                        return False
                    if isinstance(left, ast.Name) and lv.only_int():
                        self.set_name(left.id, lv.with_(i=x, ub=0), st)
                    if isinstance(right, ast.Name) and rv.only_int():
                        self.set_name(right.id, rv.with_(i=x, ub=0), st)
                elif l_int and rv.only_none() or r_int and lv.only_none():
                    return False
                elif isinstance(left, ast.Name) and r_int and lv.i is not None:
                    x = self.i_meet(lv.i, ri)
                    nv = lv.with_(i=x, n=False, s=None, ub=0)
                    if not nv.is_bot():
                        self.set_name(left.id, nv, st)
                elif isinstance(left, ast.Name) and lv.s is not None and lv.s is not True and rv.s is not None and rv.s is not True:
                    x = lv.s & rv.s
                    nv = lv.with_(s=x or None, ub=0)
                    if nv.is_bot():
                        return False
                    self.set_name(left.id, nv, st)
                elif isinstance(left, ast.Name) and rv.s is not None and rv.s is not True and lv.s is True:
                    self.set_name(left.id, lv.with_(s=rv.s, ub=0), st)
            else:
                for a, av, bi, bint in ((left, lv, ri, r_int), (right, rv, li, l_int)):
                    if av.only_int() and bint and bi is not None and bi[0] is not None and bi[0] == bi[1] and isinstance(a, ast.Name):
                        c = bi[0]
                        lo, hi, par = av.i
                        if lo == c:
                            lo = c + 1
                        if hi == c:
                            hi = c - 1
                        nv = mkint(lo, hi, par)
                        if nv.is_bot():
                            return False
                        self.set_name(a.id, av.with_(i=nv.i, ub=0), st)
                if isinstance(left, ast.Name) and lv.s is not None and lv.s is not True and rv.s is not None and rv.s is not True and len(rv.s) == 1 \
                        and rv.kinds() == {'str'}:
                    nv = lv.with_(s=(lv.s - rv.s) or None, ub=0)
                    if nv.is_bot():
                        return False
                    self.set_name(left.id, nv, st)
            return True
        # < <= > >=
        lf = lv.f if lv.f is not None else None
        rf = rv.f
        if li is None and lf is None or ri is None and rf is None:
            return True
        lnum = not (lv.u or lv.o or lv.s is not None)
        rnum = not (rv.u or rv.o or rv.s is not None)
        if op in (ast.Gt, ast.GtE):
            return self.refine_lt(right, rv, ri, rf, rnum, left, lv, li, lf, lnum, op is ast.Gt, st)
        return self.refine_lt(left, lv, li, lf, lnum, right, rv, ri, rf, rnum, op is ast.Lt, st)

    def refine_lt(self, a, av, ai, af, anum, b, bv, bi, bf, bnum, strict, st):
        """assume a < b (strict) or a <= b"""
        import math

        def lo(i, f):
            xs = []
            if i is not None:
                xs.append(i[0])
            if f is not None:
                xs.append(f[0])
            return None if any(x is None for x in xs) else min(xs)

        def hi(i, f):
            xs = []
            if i is not None:
                xs.append(i[1])
            if f is not None:
                xs.append(f[1])
            return None if any(x is None for x in xs) else max(xs)
        alo, bhi = lo(ai, af), hi(bi, bf)
        if anum and bnum and alo is not None and bhi is not None:
            if alo > bhi or (strict and alo >= bhi):
                return False
        # refine a's upper bound by b's hi ; b's lower bound by a's lo
        if bnum and isinstance(a, ast.Name) and ai is not None and bhi is not None and av.i is not None and bhi != float('inf') and bhi != float('-inf'):
            ub = math.ceil(bhi) - 1 if strict else math.floor(bhi)
            h = av.i[1]
            if h is None or ub < h:
                nv = mkint(av.i[0], ub, av.i[2])
                nn = av.with_(i=nv.i, ub=0, n=False)
                if nn.is_bot():
                    return False
                self.set_name(a.id, nn, st)
        if anum and isinstance(b, ast.Name) and bi is not None and alo is not None and bv.i is not None and alo != float('inf') and alo != float('-inf'):
            lb = math.floor(alo) + 1 if strict else math.ceil(alo)
            l = bv.i[0]
            if l is None or lb > l:
                nv = mkint(lb, bv.i[1], bv.i[2])
                nn = bv.with_(i=nv.i, ub=0, n=False)
                if nn.is_bot():
                    return False
                self.set_name(b.id, nn, st)
        return True

    def parity_name(self, e):
        if isinstance(e, ast.BinOp) and isinstance(e.left, ast.Name) and isinstance(e.right, ast.Constant):
            if isinstance(e.op, ast.Mod) and e.right.value == 2:
                return e.left.id
            if isinstance(e.op, ast.BitAnd) and e.right.value == 1:
                return e.left.id
        return None

    def peek(self, name, st):
        for sc in reversed(self.comp):
            if name in sc:
                return st.env.get(sc[name], BOT)
        return st.env.get((self.frame.fn.uid, name))

    def i_meet(self, a, b):
        if a is None or b is None:
            return None
        lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
        hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
        if a[2] is not None and b[2] is not None and a[2] != b[2]:
            return None
        return mkint(lo, hi, a[2] if a[2] is not None else b[2]).i

    def type_names(self, node, st):
        """isinstance second argument -> list of type tags or None when unknown"""
        if isinstance(node, ast.Tuple):
            out = []
            for e in node.elts:
                x = self.type_names(e, st)
                if x is None:
                    return None
                out.extend(x)
            return out
        v = self.ev(node, st)
        out = []
        if v.u or not v.o:
            return None
        for o in v.o:
            if o.kind == 'builtin':
                out.append(o.data)
            elif o.kind == 'class':
                out.append(o.data)
            elif o.kind == 'extattr':
                out.append('ext:' + o.data[1])
            elif o.kind == 'tuple':
                c = self.cont(st, o)
                for x in (c.ex or ()):
                    for y in x.o:
                        out.append(y.data if y.kind in ('builtin', 'class') else 'ext:?')
            else:
                return None
        return out

    def isinstance_split(self, v, tnode, st):
        ts = self.type_names(tnode, st)
        if ts is None:
            return v, v
        y = dict(n=False, b=0, i=None, f=None, s=None, o=frozenset(), u=v.u)
        n = dict(n=v.n, b=v.b, i=v.i, f=v.f, s=v.s, o=v.o, u=v.u)
        if 'object' in ts:
            return v, None
        if 'int' in ts or 'ext:Integral' in ts or 'ext:Number' in ts:
            y['i'], n['i'] = v.i, None
            y['b'], n['b'] = v.b, 0
        if 'bool' in ts:
            y['b'], n['b'] = v.b, 0
        if 'float' in ts or 'ext:Number' in ts:
            y['f'], n['f'] = v.f, None
        if 'str' in ts:
            y['s'], n['s'] = v.s, None
        yo, no = set(), set()
        for o in v.o:
            hit = None
            if o.kind == 'inst' and isinstance(o.data, ClassInfo):
                hit = any(isinstance(t, ClassInfo) and t in self.proj.mro(o.data) for t in ts)
            elif o.kind in ('list', 'dict', 'set', 'tuple', 'bytearray', 'frozenset'):
                hit = o.kind in ts or (o.kind == 'dict' and 'ext:defaultdict' in ts and None)
            elif o.kind in ('range',):
                hit = 'range' in ts
            elif o.kind == 'rgn':
                hit = None
            else:
                hit = False
            if hit is None:
                yo.add(o)
                no.add(o)
            elif hit:
                yo.add(o)
            else:
                no.add(o)
        y['o'], n['o'] = frozenset(yo), frozenset(no)
        # unknown part: when told it is an int etc., keep it typed
        if v.u:
            simple = {'int': dict(i=ANY_INT), 'float': dict(f=(None, None)), 'str': dict(s=True)}
            if all(isinstance(t, str) and t in simple for t in ts):
                y['u'] = False
                for t in ts:
                    for k, x in simple[t].items():
                        if y[k] is None:
                            y[k] = x
            elif all(isinstance(t, ClassInfo) for t in ts):
                y['u'] = True
        yv = Val(**y).with_(t=v.t, sym=v.sym)
        nv = Val(**n).with_(t=v.t, sym=v.sym)
        return (None if yv.is_bot() else yv), (None if nv.is_bot() else nv)

    # ------------------------------------------------------------------ names
    def default_val(self, fn, p):
        d = fn.defaults[p]
        if isinstance(d, ast.Constant):
            return vconst(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return vconst(-d.operand.value)
        kind = {ast.List: 'list', ast.Dict: 'dict', ast.Set: 'set', ast.ListComp: 'list', ast.DictComp: 'dict', ast.SetComp: 'set'}.get(type(d))
        if kind is None and isinstance(d, ast.Call) and isinstance(d.func, ast.Name):
            kind = {'list': 'list', 'dict': 'dict', 'set': 'set', 'defaultdict': 'dict', 'deque': 'deque',
                    'bytearray': 'bytearray', 'Counter': 'dict', 'OrderedDict': 'dict'}.get(d.func.id)
        if kind:
            return vobj(Obj(kind, ('D', fn.fq, p)))
        if isinstance(d, ast.Name):
            r = self.proj.resolve(fn.module, d.id)
            v = self.I.of_res(r)
            return v if v is not None else UNK
        return UNK

    def load_name(self, node, st):
        name = node.id
        for sc in reversed(self.comp):
            if name in sc:
                v = st.env.get(sc[name], BOT)
                return v.with_(ub=0) if v.ub else v
        fn = self.frame.fn
        f = fn
        while f is not None:
            if name in f.locals and not (f is fn and (name in fn.globals_)):
                v = st.env.get((f.uid, name))
                if v is None:
                    if any(fr.uid == f.uid for fr in self.frames):
                        if self.I.uses is not None and not self.I.prot:
                            self.I.loads.setdefault((self.ctxkey, node), [self.frame.fn, set()])[1].add('hard')
                        return UNK
                    return UNK
                if self.I.uses is not None and f is fn:
                    x = self.I.loads.get((self.ctxkey, node))
                    if x is not None:
                        x[1].add('ok')
                    elif not self.I.prot:
                        self.I.loads[(self.ctxkey, node)] = [self.frame.fn, {'ok'}]
                if v.ub:
                    if v.ub == 2 and f is fn and not any(I.cor_holds(st.env, c) for c in st.cor.get((f.uid, name), ())):
                        self.I.event('unbound', node, name, 'branch')
                    v = v.with_(ub=0)
                    if isinstance(node.ctx, ast.Load) and f is fn:
                        st.env[(f.uid, name)] = v
                return v
            f = f.parent
        r = self.proj.resolve(fn.module, name)
        if r is None:
            self.I.event('noname', node, name)
            return UNK
        if r[0] == 'extattr':
            self.effect(node, 'ext', r[1], r[2])
        elif r[0] == 'builtin' and r[1] in ('print', 'open', 'input', 'id', 'hash', 'exec', 'eval', 'globals', 'vars', 'breakpoint', '__import__'):
            self.effect(node, 'builtin', r[1])
        v = self.I.of_res(r)
        return v if v is not None else UNK

    # ------------------------------------------------------------------ expressions
    def ev(self, node, st):
        self.tick()
        if st.dead:
            return BOT
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.I.unsupported[type(node).__name__] = self.I.unsupported.get(type(node).__name__, 0) + 1
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return UNK
        v = m(node, st)
        return v

    def e_Constant(self, n, st):
        return vconst(n.value)

    def e_Name(self, n, st):
        return self.load_name(n, st)

    def e_JoinedStr(self, n, st):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, st)
        return STR

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        st.env[(self.frame.fn.uid, n.target.id)] = v
        return v

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Tuple(self, n, st):
        return self.seq(n, 'tuple', st)

    def e_List(self, n, st):
        return self.seq(n, 'list', st)

    def e_Set(self, n, st):
        vals = self.ev_all(n.elts, st)
        return vobj(self.alloc(st, n, 'set', I.Cont(ex=tuple(v.with_(ub=0) for v in vals))))

    def seq(self, n, kind, st):
        vals = []
        star = False
        for i, e in enumerate(n.elts):
            if isinstance(e, ast.Starred):
                star = True
                v = self.elems(st, self.ev(e.value, st), e)
            else:
                v = self.ev(e, st)
            vals.append(self.hold(st, v, *n.elts[i + 1:]) if i + 1 < len(n.elts) else v)
        vals = [self.take(st, t) for t in reversed(vals)][::-1]
        if st.dead:
            return BOT
        vals = [v.with_(ub=0) if v.ub else v for v in vals]
        if star or len(vals) > 16:
            c = I.Cont(e=joins(vals), ne=len(vals) > 16)
        else:
            c = I.Cont(ex=tuple(vals))
        o = self.alloc(st, n, kind, c)
        # values captured before ageing may refer to the previous instance of this very site
        if kind == 'list' and not star and len(vals) <= 1:
            st.must[o] = frozenset(['S'])
        return vobj(o)

    def e_Dict(self, n, st):
        ks, vs = BOT, BOT
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, st)
                vs = join(vs, self.values(st, d))
                ks = join(ks, self.keys(st, d))
                continue
            t1, t2 = self.hold(st, ks, k, v), self.hold(st, vs, k, v)
            kk, vv = self.ev_all([k, v], st)
            vs = join(self.take(st, t2), vv)
            ks = join(self.take(st, t1), kk)
        if st.dead:
            return BOT
        ln = None if any(k is None for k in n.keys) else (min(1, len(n.keys)), len(n.keys))
        return vobj(self.alloc(st, n, 'dict', I.Cont(e=vs.with_(sym=None), k=ks.with_(sym=None), ln=ln)))

    def e_IfExp(self, n, st):
        t, f = self.cond(n.test, st)
        a = self.ev(n.body, t) if t is not None else BOT
        b = self.ev(n.orelse, f) if f is not None else BOT
        r = I.jstate(t, f)
        st.become(r)
        return join(a, b)

    def e_BoolOp(self, n, st):
        cur = st.copy()
        res = BOT
        out = None
        is_and = isinstance(n.op, ast.And)
        for idx, e in enumerate(n.values):
            last = idx == len(n.values) - 1
            if last:
                v = self.ev(e, cur)
                if not cur.dead:
                    out = I.jstate(out, cur)
                    res = join(res, v)
                break
            v = self.ev(e, cur.copy())
            t, f = self.cond(e, cur)
            stop, go = (f, t) if is_and else (t, f)
            if stop is not None:
                out = I.jstate(out, stop)
                res = join(res, self.refine_truth(v, not is_and))
            if go is None:
                break
            cur = go
        st.become(out)
        return res

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st)
            r = I.jstate(t, f)
            st.become(r)
            return Val(b=(1 if t is not None else 0) | (2 if f is not None else 0))
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.USub):
            r = BOT
            if v.ivl() is not None:
                i = v.ivl()
                r = join(r, Val(i=i_neg(i)))
            if v.f is not None:
                r = join(r, Val(f=(None if v.f[1] is None else -v.f[1], None if v.f[0] is None else -v.f[0])))
            for o in v.o:
                if o.kind == 'inst':
                    r = join(r, self.call_dunder(o, '__neg__', [], st, n))
                else:
                    r = join(r, UNK)
            if v.u:
                r = join(r, UNK)
            return r.with_(t=v.t - MUST_TAGS, sym=None)
        if isinstance(n.op, ast.Invert):
            return INT if v.intlike() else UNK
        return v

    def e_Compare(self, n, st):
        t, f = self.cond(n, st.copy())
        # evaluate for side effects once more is unnecessary: take the joined state
        vt = (2 if t is not None else 0) | (1 if f is not None else 0)
        r = I.jstate(t, f)
        if r is None:
            st.dead = True
            return BOT
        # do not keep refinements (they cancel out in the join)
        st.become(r)
        # comparisons of instances may return anything
        return Val(b=vt or 3)

    def e_BinOp(self, n, st):
        a, b = self.ev_all([n.left, n.right], st)
        if st.dead:
            return BOT
        return self.binop(n.op, a, b, st, n)

    DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
              ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift',
              ast.MatMult: 'matmul'}

    def binop(self, op, a, b, st, node, aug=False):
        self.I.hook('binop', node, st=st, left=a, right=b, op=op)
        self.use('binop', node, a, b)
        r = BOT
        tags = (a.t | b.t) - MUST_TAGS
        an = a.ivl()
        bn = b.ivl()
        T = type(op)
        if (a.only_none() or b.only_none()) and not any(o.kind not in CONTAINER for o in a.o | b.o) and not (a.u or b.u):
            return self.fail('TypeError', st, node, 'arithmetic on None')
        if T in (ast.FloorDiv, ast.Mod, ast.Div) and b.only_int() and b.i[:2] == (0, 0) and a.intlike():
            return self.fail('ZeroDivisionError', st, node, 'division by zero')
        self.float_from_int(T, a, b, node)
        # numeric
        if an is not None and bn is not None:
            r = join(r, self.int_op(T, an, bn, node, st))
        if a.f is not None and (bn is not None or b.f is not None) or b.f is not None and an is not None:
            if T in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.FloorDiv, ast.Pow):
                r = join(r, self.float_op(T, a, b))
        if a.u and (bn is not None or b.f is not None or b.u or b.s is not None) or b.u and (an is not None or a.f is not None or a.s is not None):
            r = join(r, UNK)
        # strings
        if a.s is not None and (T is ast.Mod or T is ast.Mult or (T is ast.Add and (b.s is not None))):
            r = join(r, STR)
        elif b.s is not None and T is ast.Mult and an is not None:
            r = join(r, STR)
        # objects
        if len(a.o) > 1:
            r = join(r, self.each(st, a.o, lambda s, o: self.binop_obj(op, T, o, a, b, s, node, an, bn)))
        elif a.o:
            r = join(r, self.binop_obj(op, T, next(iter(a.o)), a, b, st, node, an, bn))
        if not a.o or an is not None or a.u:
            t = self.hold(st, r)
            if len(b.o) > 1:
                x = self.each(st, b.o, lambda s, o: self.binop_robj(op, T, o, a, b, s, node, an, bn))
                r = join(self.take(st, t), x)
            elif b.o:
                x = self.binop_robj(op, T, next(iter(b.o)), a, b, st, node, an, bn)
                r = join(self.take(st, t), x)
            else:
                r = self.take(st, t)
        if r.is_bot() and not st.dead:
            r = UNK
        return r.with_(t=r.t | tags, sym=None, ub=0)

    def binop_obj(self, op, T, o, a, b, st, node, an, bn):
        r = BOT
        if True:
            if o.kind == 'inst':
                r = join(r, self.inst_binop(o, a, b, T, st, node))
            elif o.kind in ('list', 'tuple', 'deque', 'bytearray'):
                if T is ast.Add:
                    r = join(r, self.concat(o, b, st, node))
                elif T is ast.Mult:
                    r = join(r, vobj(self.alloc(st, node, o.kind, self.repeated(st, o, b.ints()), sub='mul')))
                else:
                    r = join(r, UNK)
            elif o.kind in ('set', 'frozenset', 'view') and T in (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor):
                e = self.elems(st, vobj(o), node)
                if T in (ast.BitOr, ast.BitXor) and b.o:
                    e = join(e, self.elems(st, b, node))
                r = join(r, vobj(self.alloc(st, node, 'set', I.Cont(e=e), sub='setop')))
            elif o.kind == 'dict' and T is ast.BitOr:
                c = self.cont(st, o)
                r = join(r, vobj(self.alloc(st, node, 'dict', I.Cont(e=join(c.elems(), self.values(st, b)), k=join(c.k, self.keys(st, b))), sub='dor')))
            elif o.kind == 'rgn':
                if any(x.kind == 'list' for x in b.o):
                    r = join(r, vobj(self.alloc(st, node, 'list', I.Cont(e=join(UNK, self.elems(st, b, node))), sub='radd')))
                else:
                    r = join(r, UNK)
            else:
                r = join(r, UNK)
        return r

    def binop_robj(self, op, T, o, a, b, st, node, an, bn):
        r = BOT
        if True:
            if True:
                if o.kind == 'inst':
                    m = self.proj.find_method(o.data, '__r%s__' % self.DUNDER[T]) if isinstance(o.data, ClassInfo) else None
                    if m is not None:
                        r = join(r, self.call_func(m, [vobj(o), a], {}, st, node))
                    else:
                        r = join(r, UNK)
                elif o.kind in ('list', 'tuple', 'bytearray') and T is ast.Mult:
                    r = join(r, vobj(self.alloc(st, node, o.kind, self.repeated(st, o, a.ints()), sub='mul')))
                elif o.kind in ('set', 'view') and a.u:
                    r = join(r, vobj(self.alloc(st, node, 'set', I.Cont(e=self.elems(st, vobj(o), node)), sub='setop')))
                elif o.kind == 'list' and a.u and T is ast.Add:
                    r = join(r, vobj(self.alloc(st, node, 'list', I.Cont(e=join(UNK, self.cont(st, o).elems())), sub='radd')))
                else:
                    r = join(r, UNK)
        return r

    @staticmethod
    def big(v):
        """may be an integer that a float cannot hold"""
        i = v.i
        return i is not None and (i[0] is None or i[1] is None or i[0] < -2 ** 53 or i[1] > 2 ** 53)

    def float_from_int(self, T, a, b, node):
        if not (self.big(a) or self.big(b) or a.u or b.u):
            return
        if T is ast.Div and a.intlike() and b.intlike():
            self.effect(node, 'float', 'true division of integers', self.frame.fn.fq, getattr(node, 'lineno', None))
        elif T is ast.Pow and self.big(a) and b.f is not None and not b.intlike():
            self.effect(node, 'float', 'integer to a floating-point power', self.frame.fn.fq, getattr(node, 'lineno', None))
        elif T is ast.Pow and self.big(a) and b.only_int() and b.i[1] is not None and b.i[1] <= 0 and b.i[0] != 0:
            self.effect(node, 'float', 'integer to a negative power', self.frame.fn.fq, getattr(node, 'lineno', None))
        elif T in (ast.Add, ast.Sub, ast.Mult, ast.Mod, ast.FloorDiv, ast.Div, ast.Pow):
            for x, y in ((a, b), (b, a)):
                if (x.i is not None and x.f is None and self.big(x) or x.u) and y.f is not None and y.f[0] == y.f[1] and y.f[0] not in (None, INF, -INF) and not y.intlike():
                    self.effect(node, 'float', 'arithmetic of an integer with a floating-point constant', self.frame.fn.fq, getattr(node, 'lineno', None))

    def inst_binop(self, o, a, b, T, st, node):
        ci = o.data
        if not isinstance(ci, ClassInfo):
            return UNK
        m = self.proj.find_method(ci, '__%s__' % self.DUNDER[T])
        if m is not None:
            return self.call_func(m, [vobj(o), b], {}, st, node)
        r = BOT
        for p in b.o:
            if p.kind == 'inst' and isinstance(p.data, ClassInfo):
                m = self.proj.find_method(p.data, '__r%s__' % self.DUNDER[T])
                if m is not None:
                    r = join(r, self.call_func(m, [vobj(p), vobj(o)], {}, st, node))
        return r if not r.is_bot() else UNK

    def repeated(self, st, o, n):
        c = self.cont(st, o)
        if self.I.peel and c.ex is not None and n is not None and n[0] is not None and n[0] == n[1] and len(c.ex) * max(n[0], 0) <= 8:
            return I.Cont(ex=c.ex * max(n[0], 0))
        return I.Cont(e=c.elems(), ln=self.mul_len(st, o, n))

    def mul_len(self, st, o, n):
        lo, hi = self.cont(st, o).length()
        if n is None:
            return None
        nlo, nhi = max(n[0] or 0, 0), n[1] if n[1] is None else max(n[1], 0)
        return (lo * nlo, None if hi is None or nhi is None else hi * nhi)

    def len_of(self, st, v):
        """bounds of the number of elements of an iterable value"""
        r = None
        if v.u or v.n or v.s is not None or v.i is not None or v.b or v.f is not None:
            return (0, None)
        for o in v.o:
            if o.kind in CONTAINER and o.kind not in ('iter',) or o.kind == 'iter' and o.root == 'A':
                ln = self.cont(st, o).length()
                if o.kind == 'iter':
                    ln = (0, ln[1])         # may be partly consumed
                elif o.kind in ('set', 'frozenset', 'dict'):
                    ln = (min(ln[0], 1), ln[1])
            else:
                ln = (0, None)
            r = ln if r is None else I.lnjoin(r, ln)
        return r or (0, None)

    def concat(self, o, b, st, node):
        c = self.cont(st, o)
        ex = None
        oth = [x for x in b.o if x.kind in ('list', 'tuple', 'deque', 'bytearray')]
        if c.ex is not None and len(oth) == 1 and len(b.o) == 1:
            d = self.cont(st, oth[0])
            if d.ex is not None and len(c.ex) + len(d.ex) <= 16:
                ex = c.ex + d.ex
        if ex is not None:
            return vobj(self.alloc(st, node, o.kind, I.Cont(ex=ex), sub='cat'))
        e = c.elems()
        for x in b.o:
            if x.kind in CONTAINER or x.kind == 'rgn':
                e = join(e, self.elems(st, vobj(x), node))
        if b.u:
            e = join(e, UNK)
        la, lb = c.length(), self.len_of(st, b)
        return vobj(self.alloc(st, node, o.kind, I.Cont(e=e, ln=(la[0] + lb[0], None if la[1] is None or lb[1] is None else la[1] + lb[1])), sub='cat'))

    def int_op(self, T, a, b, node, st):
        if T is ast.Add:
            return i_add(a, b)
        if T is ast.Sub:
            return i_sub(a, b)
        if T is ast.Mult:
            l, r = getattr(node, 'left', None), getattr(node, 'right', None)
            if l is not None and isinstance(l, ast.Name) and isinstance(r, ast.Name) and l.id == r.id:
                return i_pow(a, (2, 2, 0))
            return i_mul(a, b)
        if T is ast.FloorDiv:
            return i_floordiv(a, b)
        if T is ast.Mod:
            return i_mod(a, b)
        if T is ast.Pow:
            if b[0] is not None and b[0] >= 0:
                return i_pow(a, b)
            if b[1] is not None and b[1] < 0:
                return FLOAT
            # unknown exponent sign: integers in this code base use non-negative exponents
            return i_pow(a, (0, b[1], b[2]))
        if T is ast.Div:
            return self.float_div(a, b)
        if T is ast.LShift:
            if a[0] is not None and a[0] >= 0:
                return mkint(a[0], None)
            return INT
        if T is ast.RShift:
            if a[0] is not None and a[0] >= 0:
                return mkint(0, a[1])
            return INT
        if T is ast.BitAnd:
            if a[0] is not None and a[0] >= 0 or b[0] is not None and b[0] >= 0:
                his = [x[1] for x in (a, b) if x[0] is not None and x[0] >= 0 and x[1] is not None]
                par = None
                if b[0] is not None and b[0] == b[1] == 1 and a[2] is not None:
                    return mkint(a[2], a[2])
                return mkint(0, min(his) if his else None, par)
            return INT
        if T in (ast.BitOr, ast.BitXor):
            if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
                hi = None
                if a[1] is not None and b[1] is not None:
                    hi = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
                return mkint(max(a[0], b[0]) if T is ast.BitOr else 0, hi)
            return INT
        return INT

    def float_div(self, a, b):
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 1:
            try:
                return Val(f=(0.0, None if a[1] is None else float(a[1]) / b[0]))
            except OverflowError:
                return Val(f=(0.0, None))
        return FLOAT

    def float_op(self, T, a, b):
        def fl(v):
            xs = []
            if v.ivl() is not None:
                i = v.ivl()
                try:
                    xs.append((None if i[0] is None else float(i[0]), None if i[1] is None else float(i[1])))
                except OverflowError:
                    xs.append((None, None))
            if v.f is not None:
                xs.append(v.f)
            r = xs[0]
            for x in xs[1:]:
                r = fjoin(r, x)
            return r
        x, y = fl(a), fl(b)
        NI, PI = float('-inf'), float('inf')
        xl, xh = (NI if x[0] is None else x[0]), (PI if x[1] is None else x[1])
        yl, yh = (NI if y[0] is None else y[0]), (PI if y[1] is None else y[1])

        def mk(lo, hi):
            if lo != lo or hi != hi:
                return FLOAT
            return Val(f=(None if lo == NI else lo, None if hi == PI else hi))
        try:
            if T is ast.Add:
                return mk(xl + yl, xh + yh)
            if T is ast.Sub:
                return mk(xl - yh, xh - yl)
            if T is ast.Mult:
                c = []
                for p in (xl, xh):
                    for q in (yl, yh):
                        c.append(0.0 if p == 0 or q == 0 else p * q)
                return mk(min(c), max(c))
            if T in (ast.Div,):
                if yl > 0:
                    c = [p / q if q != PI else 0.0 for p in (xl, xh) for q in (yl, yh)]
                    c = [z for z in c if z == z]
                    return mk(min(c), max(c)) if c else FLOAT
            if T is ast.Pow:
                if xl >= 0 and yl == yh and yl >= 0:
                    return mk(xl ** yl, PI if xh == PI else xh ** yl)
            if T is ast.FloorDiv and yl > 0 and xl >= 0:
                return Val(f=(0.0, None))
        except (OverflowError, ZeroDivisionError, ValueError):
            pass
        return FLOAT

    # -- comprehension
    def comp_run(self, n, st, gens, exprs, lazy=False):
        return self.generation(st, n, lambda: self.do_comp(n, st, gens, exprs, lazy))

    def do_comp(self, n, st, gens, exprs, lazy=False):
        """the joined values of `exprs`, evaluated for every combination the generators produce"""
        uid = self.frame.fn.uid
        at = '@%s:%s' % (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))
        scope = {}
        self.comp_len = None
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    scope[x.id] = (uid, '~%s%s' % (x.id, at))
        boxes = [(uid, '~box%d%s' % (i, at)) for i in range(len(exprs))]
        skip = frozenset(list(scope.values()) + boxes)

        def leaf(s):
            rec, self.comp_vals = self.comp_vals, None
            vals = self.ev_all(exprs, s)
            self.comp_vals = rec
            if rec is not None and not s.dead:
                # kept in the state: objects made by later iterations change the identity of earlier ones
                rec.append((uid, '~val%d%s' % (len(rec), at)))
                s.env[rec[-1]] = vals[0].with_(sym=None, ub=0)
            for k, v in zip(boxes, vals):
                s.env[k] = join(s.env.get(k, BOT), v.with_(sym=None, ub=0))
        for k in boxes:
            st.env[k] = BOT
        log, self.alloclog = self.alloclog, set()
        saved, self.comp_exact = self.comp_exact, True
        try:
            self._comp_rec(gens, 0, st, leaf, scope, skip, lazy)
        finally:
            new = self.alloclog
            self.alloclog = log
            exact, self.comp_exact = self.comp_exact, saved
            self.comp_was_exact = exact
            if log is not None:
                log |= new
        if not exact and not st.dead:
            for o in sorted(new, key=lambda o: (o.kind, str(o.key))):
                self.batch(st, o)
        out = [st.env.get(k, BOT) for k in boxes]
        for k in skip:
            st.env.pop(k, None)
        return [v.with_(ub=0) if v.ub else v for v in out]

    def batch(self, st, o):
        """the objects one comprehension made at one place: several, all of them recent"""
        if o not in st.store:
            return
        t = Obj(o.kind, o.key, o.data, 2)
        if t in st.store:
            self.age(st, t)
        m = st.must.get(o)
        self.age(st, o, t)
        if m:
            st.must[t] = m

    def _comp_rec(self, gens, i, st, leaf, scope, skip, lazy):
        if i == len(gens):
            leaf(st)
            return
        g = gens[i]
        it = self.ev(g.iter, st)
        if i == 0 and len(gens) == 1:
            self.sorted_iters[g] = self.in_order(st, it)
        if st.dead:
            return
        pushed = False
        if i == 0:
            self.comp.append(scope)
            pushed = True
        try:
            # small literal: unroll
            lits = None
            if len(it.o) == 1 and not it.u:
                o = next(iter(it.o))
                c = self.cont(st, o) if o.kind in (('list', 'tuple', 'range') if self.I.peel else ('list', 'tuple')) else None
                if c is not None and c.ex is not None and 1 <= len(c.ex) <= 6:
                    lits = c.ex
            ln = self.len_of(st, it)
            if i == 0:
                clen = None if len(gens) > 1 else (ln[0], ln[1])
            self.kept[g] = True
            self.I.hook('compiter', g.target, st=st, iterval=it)
            if lits is not None:
                cur = st
                for e in lits:
                    cur = self._comp_step(g, gens, i, cur, e, leaf, scope, skip, lazy)
                    if cur is None:
                        break
                st.become(cur)
            else:
                kit = (self.frame.fn.uid, '~iter%d@%s:%s' % (i, g.target.lineno, g.target.col_offset))
                st.env[kit] = it
                skip = skip | {kit}
                cur = st
                for n in range(10):
                    h = cur.copy()
                    e = self.elems(h, h.env.get(kit, it), g.iter)
                    if h.dead:
                        cur = None
                        break
                    if e.is_bot() and not it.u:
                        break
                    after = self._comp_step(g, gens, i, h, e, leaf, scope, skip, lazy)
                    if after is None:
                        if ln[0] > 0 and not g.ifs and not lazy:
                            cur = None
                        break
                    nxt = I.jstate(cur, after)
                    if n >= 3:
                        nxt = I.jstate(cur, nxt, f=widen)
                    done = all(k in skip or cur.env.get(k) == v for k, v in nxt.env.items()) and \
                        all(o not in cur.store or cur.store[o] == c for o, c in nxt.store.items())
                    cur = nxt
                    if done:
                        break
                st.become(cur)
                st.env.pop(kit, None)
                self.comp_exact = False
            if i == 0:
                if clen is not None and not (self.kept[g] and self.I.peel):
                    clen = (0 if g.ifs else clen[0], clen[1])
                self.comp_len = clen
        finally:
            if pushed:
                self.comp.pop()

    def _comp_step(self, g, gens, i, st, e, leaf, scope, skip, lazy):
        """one element of a generator; the state after it, None if it cannot finish"""
        cur = st.copy()
        out = None
        self.assign(g.target, e.with_(sym=('it', self.node_id(g.target))) if e.sym is None else e, cur)
        for c in g.ifs:
            t, f = self.cond(c, cur)
            if f is not None:
                self.kept[g] = False
            out = I.jstate(out, f)
            cur = t
            if cur is None:
                break
        if cur is not None:
            self._comp_rec(gens, i + 1, cur, leaf, scope, skip, lazy)
            if cur.dead and lazy:
                out = I.jstate(out, st)
            out = I.jstate(out, cur)
        return out

    def e_ListComp(self, n, st):
        if self.I.peel and not any(g.ifs for g in n.generators):
            saved, self.comp_vals = self.comp_vals, []
        else:
            saved, self.comp_vals = self.comp_vals, None
        v, = self.comp_run(n, st, n.generators, [n.elt])
        ln = self.comp_len
        vals, self.comp_vals = self.comp_vals, saved
        if vals is not None:
            vals = [st.env.pop(k, BOT) for k in vals]
        if st.dead:
            return BOT
        if vals is not None and self.comp_was_exact and len(vals) <= 6:
            o = self.alloc(st, n, 'list', I.Cont(ex=tuple(vals)))
        else:
            o = self.alloc(st, n, 'list', I.Cont(e=v, ln=ln))
        if len(n.generators) == 1 and self.sorted_iters.get(n.generators[0]) and keeps_order(n.generators[0].target, n.elt, n.generators[0].iter):
            st.must[o] = frozenset(['S'])
        return vobj(o)

    def in_order(self, st, v):
        return bool(v.o) and not v.u and all(o.kind == 'range' or 'S' in st.must.get(o, ()) for o in v.o)

    def e_SetComp(self, n, st):
        v, = self.comp_run(n, st, n.generators, [n.elt])
        return BOT if st.dead else vobj(self.alloc(st, n, 'set', I.Cont(e=v, ln=self.comp_distinct())))

    def comp_distinct(self):
        """bounds of the number of different elements of the comprehension just evaluated"""
        ln = self.comp_len
        return (min(ln[0], 1), ln[1]) if ln is not None and self.I.peel else None

    def e_GeneratorExp(self, n, st):
        v, = self.comp_run(n, st, n.generators, [n.elt], lazy=True)
        ln = self.comp_len
        return BOT if st.dead else vobj(self.alloc(st, n, 'gen', I.Cont(e=v, ln=ln)))

    def e_DictComp(self, n, st):
        k, v = self.comp_run(n, st, n.generators, [n.key, n.value])
        return BOT if st.dead else vobj(self.alloc(st, n, 'dict', I.Cont(e=v, k=k, ln=self.comp_distinct())))

    def e_Lambda(self, n, st):
        fi = self.proj.func_of_node.get(n)
        if fi is None:
            return UNK
        for p, d in fi.defaults.items():
            st.env[(fi.uid, '=' + p)] = self.ev(d, st)
        return vobj(Obj('func', ('F', fi.uid), fi))

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        self.do_yield(v, n, st)
        return UNK

    def e_YieldFrom(self, n, st):
        it = self.ev(n.value, st)
        ln = self.len_of(st, it)
        e = self.elems(st, it, n)
        end = self.endless(it, st)
        if not (end and e.is_bot()):
            self.do_yield(e, n, st, ln)
        if end:
            st.dead = True
            return BOT
        return UNK

    def do_yield(self, v, n, st, ln=(1, 1)):
        if st.dead:
            return
        key = (self.frame.uid, '~n')
        done = st.env.get(key)
        if done is not None and done.i is not None:
            lo, hi, _ = done.i
            if lo == hi and lo < 6 and ln == (1, 1) and not self.frame.fixing:
                st.env[(self.frame.uid, '~y%d' % lo)] = v.with_(sym=None, ub=0)
            else:
                st.env[(self.frame.uid, '~exact')] = BOOL
            st.env[key] = mkint(lo + ln[0], None if hi is None or ln[1] is None else hi + ln[1])
        vsym = v.sym
        v = v.with_(sym=None, ub=0)
        fr = self.frame
        fr.yields = join(fr.yields, v)
        self.I.hook('yield', n, st=st, val=v, frame=fr)
        # mark every mutable object handed out
        seen = set()
        todo = [(o, 0, vsym) for o in v.o]
        while todo:
            o, d, sy = todo.pop()
            if o in seen or o.kind not in MUTABLE | {'tuple'}:
                continue
            seen.add(o)
            if o.kind in ('list', 'dict', 'set', 'deque', 'bytearray', 'inst'):
                st.fl[o] = st.fl.get(o, frozenset()) | {('Y', sy) if sy is not None and sy[0] in ('it', 'elt') else 'Y'}
            if d < 3 and o.kind in ('list', 'dict', 'tuple', 'set', 'deque') and o.root == 'A':
                c = self.cont(st, o)
                for x in (c.ex or ()) + (c.e,):
                    todo.extend((y, d + 1, x.sym) for y in x.o)
        fr.ystates.append(st.copy())

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # -- attributes
    def e_Attribute(self, n, st):
        base = self.ev(n.value, st)
        if st.dead:
            return BOT
        v = self.load_attr(base, n.attr, st, n)
        drop = [o for o in v.o if o.kind == 'bmeth' and (o.key[0] == 'unknown' or isinstance(o.key[0], Obj) and o.key[0].kind == 'rgn')]
        if drop:
            # not called here: plain data of unknown structure
            r = v.with_(o=v.o - frozenset(drop))
            for o in drop:
                x = self.I.attr_of(st, o.key[0], n.attr) if o.key[0] != 'unknown' else None
                r = join(r, x if x is not None else UNK)
            return r
        return v

    def load_attr(self, base, attr, st, node):
        attr0 = attr
        if self.frame.cls is not None:
            attr = self.proj.mangle(self.frame.cls, attr)
        r = BOT
        if base.only_none():
            self.use('attr', node, base)
            return self.fail('AttributeError', st, node, 'attribute %s of None' % attr0)
        if len(base.o) > 1 and any(o.kind == 'inst' for o in base.o):
            r = self.each(st, base.o, lambda s, o: self.obj_attr(o, attr, attr0, s, node))
        else:
            for o in base.o:
                r = join(r, self.obj_attr(o, attr, attr0, st, node))
        if base.s is not None or base.i is not None or base.f is not None or base.b:
            if (base.n or base.s is None and not hasattr(int, attr) and not hasattr(float, attr)) and not base.u and not base.o:
                pass
            if attr == 'bit_length' and base.only_int() and base.i[0] is not None and base.i[0] >= 0:
                # the result is determined by the interval
                return vobj(Obj('bmeth', ('scalar', (base.i[0].bit_length(), None if base.i[1] is None else base.i[1].bit_length())), 'num'))
            r = join(r, vobj(Obj('bmeth', ('scalar', attr), 'str' if base.s is not None and base.i is None else 'num')))
        if base.u:
            r = join(r, self.unknown_attr(attr, st, node))
        self.use('attr', node, base)
        return r if not r.is_bot() else UNK

    def unknown_attr(self, attr, st, node):
        return vobj(Obj('bmeth', ('unknown', attr), 'unk'))

    def obj_attr(self, o, attr, attr0, st, node):
        k = o.kind
        if k == 'lib':
            r = self.proj.modattr(o.data, attr0)
            if r is None:
                self.I.event('noattr', node, 'module %s has no attribute %s' % (o.data, attr0))
                return UNK
            v = self.I.of_res(r)
            return v if v is not None else UNK
        if k == 'ext':
            self.effect(node, 'ext', o.data, attr0)
            if o.data in STDMODS and not hasattr(importlib.import_module(o.data), attr0):
                self.I.event('noattr', node, 'module %s has no attribute %s' % (o.data, attr0))
            return vobj(Obj('extattr', ('X', o.data, attr0), (o.data, attr0)))
        if k == 'extattr':
            self.effect(node, 'ext', '.'.join(o.data), attr0)
            return vobj(Obj('extattr', ('X', '.'.join(o.data), attr0), ('.'.join(o.data), attr0)))
        if k == 'inst':
            ci = o.data
            if not isinstance(ci, ClassInfo):
                return UNK
            m = self.proj.find_method(ci, attr)
            if attr == '__class__':
                return vobj(Obj('class', ('C', ci.name, ci.module.name), ci))
            ca = self.proj.find_class_attr(ci, attr)
            stored = attr in self.I.cont(st, o).a
            if stored or not (m is not None or ca is not None) or attr in self.I.class_fields(ci):
                if stored or attr in self.I.class_fields(ci) or self.stored_anywhere(ci, attr):
                    v = self.I.attr_of(st, o, attr)
                    if v is not None:
                        return v
            if m is not None:
                decs = [d.id for d in m.decorators if isinstance(d, ast.Name)]
                if 'property' in decs:
                    return self.call_func(m, [vobj(o)], {}, st, node)
                if 'staticmethod' in decs:
                    return vobj(Obj('func', ('F', m.uid), m))
                if 'classmethod' in decs:
                    return vobj(Obj('pmeth', (Obj('class', ('C', ci.name, ci.module.name), ci), m.uid), m))
                return vobj(Obj('pmeth', (o, m.uid), m))
            if ca is not None:
                c, vn = ca
                return self.class_attr(c, attr, vn)
            if attr == '__dict__':
                return UNK
            if attr.startswith('__') and attr.endswith('__'):
                return UNK
            if attr in self.I.class_fields(ci) or self.proj.has_unknown_base(ci) or self.proj.find_method(ci, '__getattr__'):
                return UNK
            if self.stored_anywhere(ci, attr):
                return UNK
            self.I.event('noattr', node, '%s object has no attribute %s' % (ci.name, attr0))
            return UNK
        if k == 'class':
            ci = o.data
            m = self.proj.find_method(ci, attr)
            if m is not None:
                decs = [d.id for d in m.decorators if isinstance(d, ast.Name)]
                if 'classmethod' in decs:
                    return vobj(Obj('pmeth', (o, m.uid), m))
                return vobj(Obj('func', ('F', m.uid), m))
            ca = self.proj.find_class_attr(ci, attr)
            if ca is not None:
                return self.class_attr(ca[0], attr, ca[1])
            if attr.startswith('__') or self.proj.has_unknown_base(ci):
                return UNK
            self.I.event('noattr', node, 'class %s has no attribute %s' % (ci.name, attr0))
            return UNK
        if k == 'rgn':
            # unknown structure: keep both the region and the method view
            return vobj(Obj('bmeth', (o, attr), 'rgn'))
        if k in ('list', 'dict', 'set', 'tuple', 'deque', 'gen', 'iter', 'view', 'range', 'bytearray', 'frozenset'):
            import collections
            py = {'list': list, 'dict': collections.defaultdict, 'set': set, 'tuple': tuple, 'deque': collections.deque,
                  'bytearray': bytearray, 'frozenset': frozenset, 'range': range}.get(k)
            if py is not None and not hasattr(py, attr) and not hasattr(collections.Counter, attr) and not hasattr(collections.OrderedDict, attr):
                self.I.event('contattr', node, '%s has no attribute %s' % (k, attr), o)
                return UNK
            return vobj(Obj('bmeth', (o, attr), k))
        if k == 'func':
            if o.data.parent is None and not attr.startswith('__'):
                return vobj(Obj('rgn', ('G', 'function ' + o.data.qual, attr))).with_(u=True)
            return UNK
        return UNK

    def stored_anywhere(self, ci, attr):
        for c in self.proj.mro(ci):
            for m in c.methods.values():
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                            self.proj.mangle(c, x.attr) == attr:
                        return True
            for s in c.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__slots__' for t in s.targets):
                    for x in ast.walk(s.value):
                        if isinstance(x, ast.Constant) and x.value == attr:
                            return True
        return False

    def class_attr(self, c, attr, vn):
        if vn is None:
            return UNK
        if isinstance(vn, ast.Name) and vn.id in c.methods:
            return vobj(Obj('func', ('F', c.methods[vn.id].uid), c.methods[vn.id]))
        return self.I.const_global(c.module, attr, vn, owner='%s:%s' % (c.module.name, c.name))

    def store_attr(self, base, attr, v, st, node):
        if self.frame.cls is not None:
            attr = self.proj.mangle(self.frame.cls, attr)
        objs = list(base.o)
        for o in objs:
            if o.kind == 'inst' or o.kind == 'rgn':
                c = self.cont(st, o)
                fresh_init = o.root != 'A' and self.frame.fn.name == '__init__'
                if not (self.frame.fn.name == '__init__' and self.frame.fn.params and o.key == ('P', self.frame.fn.params[0])):
                    self.mutate(st, o, node, 'attribute %s assigned' % attr)
                a = dict(c.a)
                if len(objs) == 1 and not o.rec:
                    a[attr] = v.with_(ub=0, sym=None)
                else:
                    prev = self.I.attr_of(st, o, attr)
                    a[attr] = join(prev, v.with_(ub=0, sym=None)) if prev is not None else v.with_(ub=0, sym=None)
                st.store[o] = I.Cont(c.ex, c.e, c.k, a, c.ne)
                self.I.hook('setattr', node, st=st, obj=o, attr=attr, val=v)
            elif o.kind in ('class', 'lib', 'func', 'ext'):
                if o.kind == 'func' and o.data.parent is not None:
                    continue
                self.I.event('gmut', node, 'assignment to attribute %s of %s' % (attr, o.data), o)
        # unknown base: nothing tracked

    # -- subscripts
    def ev_index(self, node, st):
        if isinstance(node, ast.Slice):
            cut = Cut('slice')
            cut.ends = [None if x is None else self.ev(x, st) for x in (node.lower, node.upper, node.step)]
            return cut
        return self.ev(node, st)

    def table(self, st, o):
        """values of a module-level sequence of integer constants"""
        if not self.I.peel or o.root != 'G' or o in st.store:
            return None
        self.cont(st, o)
        return self.I.tables.get(o.key)

    @staticmethod
    def span(vals):
        """the interval of some values, with their common parity"""
        pars = {x & 1 for x in vals[:2000]} if len(vals) <= 2000 else {0, 1}
        if len(vals) > 2000:
            pars = {x & 1 for x in vals}
        return mkint(min(vals), max(vals), pars.pop() if len(pars) == 1 else None)

    def cut(self, c, t, idx):
        """contents of a slice of a sequence with contents c (values t, if a table); None if nothing is known"""
        if not isinstance(idx, Cut) or idx.ends[2] is not None or not self.I.peel:
            return None
        a, b = idx.ends[0], idx.ends[1]
        if any(x is not None and not x.only_int() for x in (a, b)):
            return None
        lo, hi = c.length() if t is None else (len(t), len(t))
        if lo is None or lo != hi:
            return None
        a = (0, 0) if a is None else a.i[:2]
        b = (lo, lo) if b is None else b.i[:2]
        if a[0] is None or a[0] < 0 or b[0] is None or b[0] < 0:
            if not (a[0] == a[1] and a[0] is not None and b[0] == b[1] and b[0] is not None):
                return None
            a, b = [(min(max(x[0] + lo if x[0] < 0 else x[0], 0), lo),) * 2 for x in (a, b)]
        inf = lo
        a = (min(a[0], lo), inf if a[1] is None else min(a[1], lo))
        b = (min(b[0], lo), inf if b[1] is None else min(b[1], lo))
        n = (max(b[0] - a[1], 0), max(b[1] - a[0], 0))
        if n[1] == 0:
            return I.Cont(ex=())
        if a[0] == a[1] and b[0] == b[1]:
            if c.ex is not None:
                return I.Cont(ex=c.ex[a[0]:b[0]])
            if t is not None and n[1] <= 8:
                return I.Cont(ex=tuple(vconst(x) for x in t[a[0]:b[0]]))
        return I.Cont(e=self.span(t[a[0]:b[1]]) if t is not None else c.elems(), ln=n)

    def e_Subscript(self, n, st):
        t = self.hold(st, self.ev(n.value, st), n.slice)
        idx = self.ev_index(n.slice, st)
        base = self.take(st, t)
        if st.dead:
            return BOT
        return self.load_subscript(base, idx, st, n)

    def load_subscript(self, base, idx, st, node):
        r = BOT
        self.use('sub', node, base, UNK if isinstance(idx, str) else idx)
        if isinstance(idx, Val):
            why = self.bad_index(st, base, idx)
            if why is not None:
                return self.fail(why[0], st, node, why[1])
        if len(base.o) > 1 and (isinstance(idx, str) or any(o.kind == 'inst' for o in base.o)):
            r = self.each(st, base.o, lambda s, o: self.load_item(o, idx, s, node))
        else:
            for o in base.o:
                r = join(r, self.load_item(o, idx, st, node))
        if base.s is not None:
            r = join(r, STR)
        if base.u:
            r = join(r, UNK)
        if st.dead:
            return BOT
        if r.is_bot():
            return UNK
        if isinstance(idx, Val) and idx.sym is not None and idx.sym[0] == 'it' and len(base.o) == 1:
            return r.with_(ub=0, sym=('elt', idx.sym))
        return r.with_(ub=0, sym=None)

    def load_item(self, o, idx, st, node):
        r = BOT
        if True:
            if o.kind == 'inst':
                r = join(r, self.call_dunder(o, '__getitem__', [UNK if isinstance(idx, str) else idx], st, node))
            elif o.kind in ('list', 'tuple', 'deque', 'range', 'bytearray', 'view', 'iter'):
                c = self.cont(st, o)
                if isinstance(idx, str):
                    kind = 'tuple' if o.kind == 'tuple' else 'list' if o.kind not in ('bytearray', 'range') else o.kind
                    nc = I.Cont(e=c.elems())
                    if c.ex is not None and isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
                        s = node.slice
                        try:
                            lo = None if s.lower is None else ast.literal_eval(s.lower)
                            hi = None if s.upper is None else ast.literal_eval(s.upper)
                            stp = None if s.step is None else ast.literal_eval(s.step)
                            nc = I.Cont(ex=c.ex[lo:hi:stp])
                        except Exception:
                            pass
                    else:
                        nc = self.cut(c, self.table(st, o), idx) or nc
                    no = self.alloc(st, node, kind, nc, sub='slice')
                    if 'S' in st.must.get(o, ()) and isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and node.slice.step is None:
                        st.must[no] = frozenset(['S'])
                    r = join(r, vobj(no))
                elif c.ex is not None:
                    try:
                        k = idx.const()
                        if isinstance(k, int) and -len(c.ex) <= k < len(c.ex):
                            r = join(r, c.ex[k])
                        else:
                            r = join(r, joins(c.ex))
                    except KeyError:
                        r = join(r, joins(c.ex))
                else:
                    t = self.table(st, o) if idx.only_int() else None
                    if t:
                        n, (lo, hi) = len(t), idx.i[:2]
                        if lo is not None and hi is not None and lo >= -n and hi < 0:
                            lo, hi = lo + n, hi + n
                        if lo is not None and 0 <= lo < n:
                            r = join(r, self.span(t[lo:n if hi is None else hi + 1]))
                        else:
                            r = join(r, c.elems())
                    else:
                        r = join(r, c.elems())
            elif o.kind == 'dict':
                c = self.cont(st, o)
                v = c.elems()
                fac = c.a.get('factory')
                if fac is not None and not fac.only_none():
                    # defaultdict: a read may insert
                    nv = self.call_value(fac, [], {}, st, node)
                    self.mutate(st, o, node, 'implicit insertion by a defaultdict read')
                    self.add_elem(st, o, nv, key=idx if isinstance(idx, Val) else None)
                    v = join(v, nv)
                self.I.hook('dictread', node, st=st, obj=o, idx=idx)
                r = join(r, v)
            elif o.kind == 'rgn':
                if isinstance(idx, str):
                    r = join(r, vobj(self.alloc(st, node, 'list', I.Cont(e=self.cont(st, o).elems()), sub='slice')).with_(u=True))
                else:
                    r = join(r, self.cont(st, o).elems())
            else:
                r = join(r, UNK)
        return r

    def bad_index(self, st, base, idx, store=False):
        """(exception, reason) if every possible subscription raises"""
        if base.u or base.s is not None:
            return None
        if not base.o:
            if base.n or base.i is not None or base.f is not None or base.b:
                return 'TypeError', 'subscript of a value that has none'
            return None
        if base.n or base.i is not None or base.f is not None or base.b:
            return None
        worst = 0
        for o in base.o:
            if o.kind in ('list', 'tuple', 'deque', 'bytearray'):
                hi = self.cont(st, o).length()[1]
                if hi is None:
                    return None
                worst = max(worst, hi)
            elif o.kind == 'dict':
                c = self.cont(st, o)
                if store or c.length()[1] != 0 or not (c.a.get('factory') is None or c.a['factory'].only_none()):
                    return None
            else:
                return None
        if all(o.kind == 'dict' for o in base.o):
            return 'KeyError', 'subscript of an empty dictionary'
        if not idx.only_int():
            return None
        lo, hi, _ = idx.i
        if lo is not None and lo >= worst or hi is not None and hi < -worst:
            return 'IndexError', 'index %s of a list of length %s' % (lo if lo == hi else 'range', worst)
        return None

    def store_subscript(self, base, idx, v, st, node):
        v = v.with_(ub=0, sym=None)
        many = len(base.o) > 1
        self.use('store', node, base, UNK if isinstance(idx, str) else idx)
        if isinstance(idx, Val):
            why = self.bad_index(st, base, idx, True)
            if why is not None:
                return self.fail(why[0], st, node, why[1])
        for o in base.o:
            if o.kind == 'inst':
                self.call_dunder(o, '__setitem__', [UNK if isinstance(idx, str) else idx, v], st, node)
                continue
            self.I.hook('setitem', node, st=st, obj=o, idx=idx, val=v)
            self.mutate(st, o, node, 'item assignment')
            c = self.cont(st, o)
            if o.kind in ('list', 'bytearray', 'deque'):
                if isinstance(idx, str):
                    e = self.elems(st, v, node)
                    st.store[o] = I.Cont(None, join(c.elems(), e), c.k, c.a)
                else:
                    done = False
                    if c.ex is not None:
                        try:
                            k = idx.const()
                            if isinstance(k, int) and -len(c.ex) <= k < len(c.ex):
                                k %= len(c.ex)
                                nv = v if not many and not o.rec else join(c.ex[k], v)
                                st.store[o] = I.Cont(c.ex[:k] + (nv,) + c.ex[k + 1:], c.e, c.k, c.a, c.ne)
                                done = True
                        except KeyError:
                            pass
                        if not done:
                            st.store[o] = I.Cont(tuple(join(x, v) for x in c.ex), c.e, c.k, c.a, c.ne)
                            done = True
                    if not done:
                        st.store[o] = I.Cont(None, join(c.e, v), c.k, c.a, c.ne, c.ln)
            elif o.kind == 'dict':
                ln = c.length()
                ln = (max(ln[0], 0 if many or o.rec else 1), None if ln[1] is None else ln[1] + 1)
                st.store[o] = I.Cont(None, join(c.elems(), v), join(c.k, idx.with_(ub=0, sym=None) if isinstance(idx, Val) else UNK), c.a, False, ln)
            elif o.kind == 'rgn':
                pass

    # -- iteration helpers
    def elems(self, st, v, node):
        r = BOT
        if isinstance(node, ast.AST):
            self.use('iter', node, v)
            if not v.o and not v.u and v.s is None and (v.n or v.i is not None or v.f is not None or v.b):
                return self.fail('TypeError', st, node, 'iteration over a value that is not iterable')
        if len(v.o) > 1 and any(o.kind == 'inst' for o in v.o):
            r = self.each(st, v.o, lambda s, o: self.elems(s, vobj(o), node if isinstance(node, tuple) else ('part', node)))
        for o in (v.o if r.is_bot() else ()):
            if o.kind == 'dict':
                r = join(r, self.cont(st, o).k)
            elif o.kind == 'inst':
                node = node[1] if isinstance(node, tuple) and node[:1] == ('part',) else node
                ci = o.data
                m = self.proj.find_method(ci, '__iter__') if isinstance(ci, ClassInfo) else None
                if m is not None:
                    g = self.call_func(m, [vobj(o)], {}, st, node)
                    r = join(r, self.elems(st, g.with_(o=frozenset(x for x in g.o if x.kind != 'inst')), node))
                elif isinstance(ci, ClassInfo) and self.proj.find_method(ci, '__getitem__'):
                    r = join(r, self.call_dunder(o, '__getitem__', [NAT], st, node))
                else:
                    r = join(r, UNK)
            elif o.kind in CONTAINER or o.kind == 'rgn':
                r = join(r, self.cont(st, o).elems())
                if o.kind == 'gen':
                    self.weaken(st, o)      # consumed, in part or completely
            else:
                r = join(r, UNK)
        if v.s is not None:
            r = join(r, STR)
        if v.u:
            r = join(r, UNK)
        return r.with_(sym=None) if r.sym is not None else r

    def keys(self, st, v):
        r = BOT
        for o in v.o:
            if o.kind == 'dict':
                r = join(r, self.cont(st, o).k)
            else:
                r = join(r, UNK)
        if v.u:
            r = join(r, UNK)
        return r

    def values(self, st, v):
        r = BOT
        for o in v.o:
            if o.kind == 'dict':
                r = join(r, self.cont(st, o).elems())
            else:
                r = join(r, UNK)
        if v.u:
            r = join(r, UNK)
        return r

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        if self.frozen and n in self.frozen:
            return self.frozen[n]
        v = self.do_call(n, st)
        if self.calls_seen is not None:
            self.calls_seen[n] = join(self.calls_seen[n], v) if n in self.calls_seen else v
        return v

    def do_call(self, n, st):
        if isinstance(n.func, ast.Attribute):
            self.I.visited_nodes.add(n.func)
            base = self.ev(n.func.value, st)
            if st.dead:
                return BOT
            f = self.load_attr(base, n.func.attr, st, n.func)
        else:
            f = self.ev(n.func, st)
        if st.dead:
            return BOT
        args, kwargs, star, dstar = [], {}, False, False
        todo = list(n.args) + [k.value for k in n.keywords]
        heldf = self.hold_func(st, f, todo)
        for i, a in enumerate(n.args):
            args[:] = [self.hold(st, x, *todo[i:]) if not isinstance(x, tuple) else x for x in args] if i else []
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                # exact length known?
                done = False
                if len(v.o) == 1 and not v.u:
                    o = next(iter(v.o))
                    c = self.cont(st, o) if o.kind in ('list', 'tuple') else None
                    if c is not None and c.ex is not None:
                        args.extend(c.ex)
                        done = True
                if not done:
                    star = self.elems(st, v, a)
            else:
                args.append(self.ev(a, st))
        for i, k in enumerate(n.keywords):
            args[:] = [self.hold(st, x, *todo[len(n.args) + i:]) if not isinstance(x, tuple) else x for x in args]
            v = self.ev(k.value, st)
            if k.arg is None:
                dstar = True
            else:
                kwargs[k.arg] = self.hold(st, v, *todo[len(n.args) + i + 1:]) if i + 1 < len(n.keywords) else v
        for k in reversed(list(kwargs)):
            kwargs[k] = self.take(st, kwargs[k])
        args = [self.take(st, x) for x in reversed(args)][::-1]
        f = self.take_func(st, f, heldf)
        if star is not False:
            star = self.aged(star, st)
        if st.dead:
            return BOT
        args = [a.with_(ub=0) if a.ub else a for a in args]
        return self.call_value(f, args, kwargs, st, n, star, dstar)

    def hold_func(self, st, f, rest):
        """the receivers of bound methods, kept while the arguments are evaluated"""
        if not any(o.kind in ('bmeth', 'pmeth') and isinstance(o.key[0], Obj) and o.key[0].root == 'A' for o in f.o):
            return None
        if not any(allocates(e) for e in rest):
            return None
        out = []
        for o in f.o:
            if o.kind in ('bmeth', 'pmeth') and isinstance(o.key[0], Obj) and o.key[0].root == 'A':
                out.append((o, self.hold(st, vobj(o.key[0]))))
        return out

    def take_func(self, st, f, held):
        if not held:
            return f
        objs = set(f.o)
        for o, tok in reversed(held):
            v = self.take(st, tok)
            if v.o != frozenset([o.key[0]]):
                objs.discard(o)
                objs.update(Obj(o.kind, (x,) + o.key[1:], o.data) for x in v.o)
        return f.with_(o=frozenset(objs))

    def call_value(self, f, args, kwargs, st, node, star=False, dstar=False):
        self.use('call', node, f)
        if not f.o and not f.u and (f.n or f.i is not None or f.f is not None or f.s is not None):
            return self.fail('TypeError', st, node, 'call of a value that is not callable')
        targets = [o for o in f.o]
        if not targets or (f.u and not targets):
            if not (f.n or f.i is not None):
                k = ast.unparse(node.func) if isinstance(node, ast.Call) else '?'
                self.I.calls_unresolved[k] = self.I.calls_unresolved.get(k, 0) + 1
            self.call_callbacks(args, kwargs, st, node)
            return UNK
        self.I.calls_resolved += 1
        if len(targets) == 1:
            return self.call_obj(targets[0], args, kwargs, st, node, star, dstar)
        out, res = None, BOT
        for o in sorted(targets, key=lambda o: (o.kind, str(o.key))):
            s = st.copy()
            v = self.call_obj(o, args, kwargs, s, node, star, dstar)
            if not s.dead:
                out = I.jstate(out, s)
                res = join(res, v)
        st.become(out)
        if not st.dead and not kwargs and all(o.kind == 'bmeth' and o.key[1] == 'sort' and isinstance(o.key[0], Obj) and o.key[0].kind == 'list' for o in targets):
            # whichever list the receiver is, it is the one that is sorted
            for o in targets:
                if o.key[0].root == 'A' and not o.key[0].rec:
                    st.must[o.key[0]] = st.must.get(o.key[0], frozenset()) | {'S'}
        return res

    def call_callbacks(self, args, kwargs, st, node):
        pass

    def call_obj(self, o, args, kwargs, st, node, star=False, dstar=False):
        k = o.kind
        if k == 'func':
            return self.call_func(o.data, args, kwargs, st, node, star, dstar)
        if k == 'pmeth':
            return self.call_func(o.data, [vobj(o.key[0])] + args, kwargs, st, node, star, dstar)
        if k == 'class':
            return self.construct(o.data, args, kwargs, st, node, star, dstar)
        if k == 'builtin':
            return self.call_builtin(o.data, args, kwargs, st, node, star)
        if k == 'extattr':
            return self.call_ext(o.data[0], o.data[1], args, kwargs, st, node, star)
        if k == 'bmeth':
            return self.call_bmeth(o, args, kwargs, st, node, star)
        if k == 'inst':
            return self.call_dunder(o, '__call__', args, st, node, kwargs)
        return UNK

    def call_dunder(self, o, name, args, st, node, kwargs=None):
        ci = o.data
        m = self.proj.find_method(ci, name) if isinstance(ci, ClassInfo) else None
        if m is None:
            return UNK
        return self.call_func(m, [vobj(o)] + args, kwargs or {}, st, node)

    def construct(self, ci, args, kwargs, st, node, star=False, dstar=False):
        for c in self.proj.mro(ci):
            pass
        o = self.alloc(st, node, 'inst', I.Cont(), data=ci, sub='new')
        m = self.proj.find_method(ci, '__init__')
        if m is not None:
            self.call_func(m, [vobj(o)] + args, kwargs, st, node, star, dstar)
            # __init__ may have been analysed with o being aged: find recent
        elif args and not self.proj.has_unknown_base(ci):
            self.I.event('arity', node, '%s() takes no arguments' % ci.name)
        return vobj(o)

    def bind(self, fn, args, kwargs, st, node, star, dstar):
        """-> dict name->Val (missing -> default), reports arity errors"""
        b = {}
        pos = list(fn.params)
        n = len(args)
        err = None
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                b[pos[i]] = v
            else:
                extra.append(v)
        if extra and not fn.vararg:
            err = 'takes %d positional arguments but %d were given' % (len(pos), n)
        kwextra = []
        for k, v in kwargs.items():
            if k in pos or k in fn.kwonly:
                if k in b:
                    err = 'multiple values for argument %s' % k
                b[k] = v
            elif fn.kwarg:
                kwextra.append(v)
            else:
                err = 'unexpected keyword argument %s' % k
        if star is not False:
            for p in pos:
                if p not in b:
                    d = star
                    if p in fn.defaults:
                        d = join(d, self.default_of(fn, p, st))
                    b[p] = d
        missing = []
        for p in pos + fn.kwonly:
            if p not in b:
                if p in fn.defaults:
                    b[p] = self.default_of(fn, p, st)
                elif star is not False or dstar:
                    b[p] = UNK
                else:
                    missing.append(p)
                    b[p] = UNK
        if missing:
            err = 'missing argument(s) %s' % ', '.join(missing)
        if err:
            self.I.event('arity', node, '%s(): %s' % (fn.qual, err))
        if fn.vararg:
            b['*'] = joins(extra + ([star] if star is not False else []))
        if fn.kwarg:
            b['**'] = joins(kwextra + ([UNK] if dstar else []))
        return b

    def default_of(self, fn, p, st):
        if fn.parent is not None:
            v = st.env.get((fn.uid, '=' + p))
            if v is not None:
                return v
        return self.default_val(fn, p)

    def call_func(self, fn, args, kwargs, st, node, star=False, dstar=False):
        self.I.edges.setdefault(self.frame.fn, set()).add(fn)
        self.I.hook('call', node, st=st, fn=fn, args=args, kwargs=kwargs)
        b = self.bind(fn, args, kwargs, st, node, star, dstar)
        self.I.hook('boundcall', node, st=st, fn=fn, bound=b)
        orc = self.I.oracles.get(fn)
        if orc is not None:
            v = orc(self, b, st, node)
            if v is not None:
                return v
        nested = fn.parent is not None
        if nested and any(fr.uid == fn.parent.uid for fr in self.frames):
            return self.inline(fn, b, st, node)
        if self.I.mode == 'inline':
            if self.depth >= self.I.max_inline:
                return UNK
            return self.inline(fn, b, st, node)
        if self.depth < self.I.max_inline and (tiny(fn) or any(self.carries(o) for v in b.values() for o in v.o)):
            return self.inline(fn, b, st, node)
        return self.apply_summary(fn, b, st, node)

    def carries(self, o):
        """a callable that works on objects or variables of the caller: what the callee does with it happens here"""
        if o.kind in ('bmeth', 'pmeth'):
            return isinstance(o.key[0], Obj) and o.key[0].root in ('A', 'P') and o.key[0].kind not in CALLABLE
        return o.kind == 'func' and isinstance(o.data, FuncInfo) and o.data.parent is not None and any(fr.uid == o.data.parent.uid for fr in self.frames)

    # -- inlining (closures; everything in inline mode)
    def inline(self, fn, b, st, node):
        self.I.analysed.add(fn)
        uid = fn.uid

        def strip(s):
            for k in [k for k in s.env if k[0] == uid and not k[1].startswith('=')]:
                del s.env[k]

        if uid in self.rec:
            r = self.rec[uid]
            r.used = True
            na = {k: join(r.args.get(k), v.with_(ub=0, sym=None)) for k, v in b.items()}
            na = {k: widen(r.args.get(k), v) for k, v in na.items()}
            e = st.copy()
            strip(e)
            ne = I.jstate(r.entry, e, softnew=True)
            if na != r.args or not ne.same(r.entry):
                r.args, r.entry, r.dirty = na, ne, True
            if r.exit is None:
                if fn.is_gen:
                    g = self.alloc(st, node, 'gen', I.Cont(e=r.ret), sub=('gen', uid))
                    return vobj(g)
                st.dead = True
                return BOT
            own = {k: self.aged(v, r.exit) for k, v in st.env.items() if k[0] == uid and not k[1].startswith('=')}
            m = I.jstate(st, r.exit)
            for k in [k for k in m.env if k[0] == uid and not k[1].startswith('=')]:
                if k not in own:
                    del m.env[k]
            m.env.update(own)
            for k, v in st.env.items():
                # variables of the functions in between, which the exit does not speak of
                if k not in own and k not in r.exit.env and k in m.env and m.env[k].ub != v.ub:
                    m.env[k] = m.env[k].with_(ub=v.ub)
            # frames of callers keep their variables as in st (the callee cannot rebind them unless nonlocal)
            st.become(m.copy())
            if fn.is_gen:
                g = self.alloc(st, node, 'gen', I.Cont(e=r.ret), sub=('gen', uid))
                return vobj(g)
            return r.ret
        r = Rec()
        r.args = {k: v.with_(ub=0) for k, v in b.items()}
        r.entry = st.copy()
        strip(r.entry)
        r.exit, r.ret, r.dirty, r.used = None, BOT, False, False
        own = {k: v for k, v in st.env.items() if k[0] == uid and not k[1].startswith('=')}
        self.rec[uid] = r
        self.depth += 1
        trysave = self.trys
        if fn.is_gen:
            self.trys = []
        try:
            for it in range(12):
                r.dirty = False
                s = r.entry.copy()
                fr = I.Frame(fn, node)
                if fn.is_gen:
                    s.env[(uid, '~n')] = mkint(0, 0)
                for p in list(fn.params) + list(fn.kwonly):
                    s.env[(uid, p)] = r.args[p]
                if fn.vararg:
                    o = self.alloc(s, node, 'tuple', I.Cont(e=r.args.get('*', BOT), ln=(0, 0) if r.args.get('*', BOT).is_bot() else None), sub='vararg')
                    s.env[(uid, fn.vararg)] = vobj(o)
                if fn.kwarg:
                    o = self.alloc(s, node, 'dict', I.Cont(e=r.args.get('**', BOT), k=BOT if r.args.get('**', BOT).is_bot() else STR,
                                                              ln=(0, 0) if r.args.get('**', BOT).is_bot() else None), sub='kwarg')
                    s.env[(uid, fn.kwarg)] = vobj(o)
                self.frames.append(fr)
                self.frame = fr
                compsave, self.comp = self.comp, []
                try:
                    out = self.exec_body(fn, s)
                finally:
                    self.comp = compsave
                    self.frames.pop()
                    self.frame = self.frames[-1]
                if out is not None and not out.dead and not fn.is_lambda:
                    fr.rets.append((out, NONE, None))
                ex, ret = None, BOT
                for s2, v, _ in fr.rets:
                    ex = I.jstate(ex, s2)
                    ret = join(ret, v)
                if fn.is_gen:
                    whole = self.yielded(uid, ex)
                    for s2 in fr.ystates:
                        ex = I.jstate(ex, s2)
                    ex = I.jstate(ex, r.entry)
                    if whole.ex is not None and ex is not None:
                        whole = I.Cont(ex=tuple(self.aged(x, ex) for x in whole.ex))
                    ret = self.aged(fr.yields, ex)
                changed = False
                if ex is not None:
                    ex = ex.copy()
                    strip(ex)
                    if r.exit is None or not ex.same(r.exit):
                        changed = True
                    r.exit = I.jstate(r.exit, ex) if r.exit is not None else ex
                nr = join(r.ret, ret)
                if nr != r.ret:
                    r.ret = widen(r.ret, nr) if it > 3 else nr
                    changed = True
                if not r.used:
                    break
                if not changed and not r.dirty:
                    break
        finally:
            del self.rec[uid]
            self.depth -= 1
            self.trys = trysave
        if r.exit is None:
            st.dead = True
            return BOT
        final = r.exit.copy()
        strip(final)
        final.env.update({k: self.aged(v, final) for k, v in own.items()})
        st.become(final)
        if fn.is_gen:
            c = I.Cont(e=r.ret.with_(sym=None))
            if not r.used:
                c = whole if whole.ex is not None else I.Cont(e=c.e, ln=whole.ln)
                c = I.Cont(ex=c.ex, e=c.e, ln=c.ln, a={'~ends': TRUE if fr.rets else FALSE})
            return vobj(self.alloc(st, node, 'gen', c, sub=('gen', uid)))
        return r.ret.with_(sym=None) if r.ret.sym is not None and r.ret.sym[0] != 'p' else r.ret

    def yielded(self, uid, ex):
        """contents of a generator run to its end, from the state there"""
        n = ex.env.get((uid, '~n')) if ex is not None else None
        if n is None or n.i is None or not self.I.peel:
            return I.Cont()
        lo, hi, _ = n.i
        vals = [ex.env.get((uid, '~y%d' % k)) for k in range(lo if lo == hi else 0)]
        if lo == hi and (uid, '~exact') not in ex.env and all(x is not None and not x.ub for x in vals):
            return I.Cont(ex=tuple(vals))
        return I.Cont(ln=(lo, hi))

    # -- summaries
    def apply_summary(self, fn, b, st, node):
        shapes = []
        for p in list(fn.params) + list(fn.kwonly):
            shapes.append((p, self.I.shape_of_val(st, b[p])))
        if '*' in b:
            shapes.append(('*' + fn.vararg, self.I.shape_of_val(st, b['*'])))
        if '**' in b:
            shapes.append(('**' + fn.kwarg, self.I.shape_of_val(st, b['**'])))
        s = self.I.summary(fn, tuple(shapes))
        for exc in sorted(s.raises):
            self.do_raise(exc, st, node)
        if not s.normal:
            st.dead = True
            return BOT
        actual = dict(b)
        if '*' in b:
            actual[fn.vararg] = b['*']
        if '**' in b:
            actual[fn.kwarg] = b['**']
        cache = {}

        def objs_at(key):
            """actual objects for a callee path ('P', name, step, ...)"""
            if key in cache:
                return cache[key]
            if len(key) == 2:
                r = actual.get(key[1], BOT)
            else:
                base = objs_at(key[:-1])
                step = key[-1]
                r = BOT
                for o in base.o:
                    if isinstance(step, str) and step.startswith('a:'):
                        if o.kind == 'inst' or o.kind == 'rgn':
                            v = self.I.attr_of(st, o, step[2:])
                            if v is not None:
                                r = join(r, v)
                    else:
                        c = self.cont(st, o)
                        if step == 'k':
                            r = join(r, c.k)
                        elif isinstance(step, int):
                            if c.ex is not None and step < len(c.ex):
                                r = join(r, c.ex[step])
                            else:
                                r = join(r, c.elems())
                        else:
                            r = join(r, c.elems())
            cache[key] = r
            return r

        # name the objects the callee may create, renaming older ones of the same name first
        fresh = {}
        toks = None
        for i, o in enumerate(sorted((o for o in s.conts if isinstance(o.key, tuple) and o.root == 'A'), key=lambda o: (o.kind, str(o.key), o.rec))):
            no = Obj(o.kind, ('A', self.node_id(node), (fn.uid, i, 'ret')), o.data, o.rec)
            fresh[o] = no
            if no.rec in (0, 2) and no in st.store:
                if toks is None:
                    toks = {k: self.hold(st, v) for k, v in actual.items()}
                self.age(st, no)
        if toks is not None:
            for k in reversed(list(toks)):
                actual[k] = self.take(st, toks[k])
        cache.clear()

        def inst_obj(o):
            """map a callee object to caller objects"""
            if isinstance(o.key, tuple) and o.root == 'P':
                a = objs_at(o.key)
                res = [x for x in a.o if x.kind == o.kind and x.data == o.data]
                if not res:
                    res = [x for x in a.o if x.kind not in CALLABLE and x.kind not in ('lib', 'ext')] if o.kind == 'rgn' else []
                return res
            if o.kind in ('bmeth', 'pmeth') and isinstance(o.key, tuple) and isinstance(o.key[0], Obj):
                return [Obj(o.kind, (x,) + o.key[1:], o.data) for x in inst_obj(o.key[0])]
            if isinstance(o.key, tuple) and o.root == 'A':
                return [fresh[o]]
            return [o]

        def inst_val(v):
            if not v.o:
                return v
            objs = set()
            unk = v.u
            for o in sorted(v.o, key=lambda x: (x.kind, str(x.key), x.rec)):
                m = inst_obj(o)
                if not m and isinstance(o.key, tuple) and o.root == 'P':
                    unk = True
                objs.update(m)
            return v.with_(o=frozenset(objs), u=unk or (v.u))

        for e, chain in s.effects.items():
            if e not in self.effects:
                self.effects[e] = [(self.frame.fn, node)] + chain
        # mutations
        for o, (how, chain) in s.muts.items():
            if o.root == 'P':
                for x in inst_obj(o):
                    self.mutate_via(st, x, node, how, chain, fn)
            elif o.root in ('G', 'D'):
                if o not in self.muts:
                    self.muts[o] = (how, [(self.frame.fn, node)] + chain)
        ret = inst_val(s.ret)
        stores = []
        for o, c in s.pstores.items():
            stores.append((inst_obj(o), inst_cont(c, inst_val), o))
        for o, no in fresh.items():
            nc = inst_cont(s.conts.get(o, I.EMPTY), inst_val)
            if no.rec in (1, 3) and no in st.store:
                nc = I.cjoin(st.store[no], nc)
            st.store[no] = nc
            if no.rec in (0, 2):
                st.fl.pop(no, None)
            if self.alloclog is not None:
                self.alloclog.add(Obj(no.kind, no.key, no.data))
            m = s.must.get(o)
            if m and no.rec in (0, 2):
                st.must[no] = m
            else:
                st.must.pop(no, None)
        for objs, c, o in stores:
            for x in objs:
                old = self.cont(st, x)
                a = dict(old.a)
                for k, v in c.a.items():
                    if len(objs) == 1 and not x.rec and not v.ub:
                        a[k] = v
                    else:
                        prev = self.I.attr_of(st, x, k)
                        a[k] = join(prev, v.with_(ub=0)) if prev is not None else v
                if x.kind == 'inst':
                    st.store[x] = I.Cont(old.ex, join(old.e, c.e), join(old.k, c.k), a, old.ne)
                elif old.ex is not None and c.ex is not None and len(old.ex) == len(c.ex):
                    st.store[x] = I.Cont(tuple(join(p, q) for p, q in zip(old.ex, c.ex)), old.e, old.k, a, old.ne)
                else:
                    st.store[x] = I.Cont(None, join(old.elems(), c.elems()), join(old.k, c.k), a)
        for o, m in s.must.items():
            if o.root == 'P' and len(o.key) == 2:
                xs = inst_obj(o)
                if len(xs) == 1:
                    st.must[xs[0]] = m
        return ret

    def mutate_via(self, st, o, node, how, chain, fn):
        n0 = len(self.muts)
        had = o in self.muts
        self.mutate(st, o, node, '%s in %s' % (how, fn.qual) if ' in ' not in how else how)
        if o in self.muts and not had:
            self.muts[o] = (self.muts[o][0], [(self.frame.fn, node)] + chain)


RESIZE = {
    'dict': ('.pop()', '.popitem()', '.clear()', 'item deletion', 'implicit insertion'),
    'set': ('.add()', '.remove()', '.discard()', '.pop()', '.clear()', '.update()', '.difference_update()', '.intersection_update()',
            '.symmetric_difference_update()', 'augmented assignment'),
    'list': ('.remove()', '.pop()', '.insert()', '.clear()', 'item deletion', '.sort()', '.reverse()', 'random.shuffle'),
    'deque': ('.remove()', '.pop()', '.popleft()', '.append()', '.appendleft()', '.extend()', '.extendleft()', '.insert()', '.clear()', '.rotate()'),
}


def resizing(o, how):
    return any(how.startswith(h) for h in RESIZE.get(o.kind, ()))


def from_behind(s, how):
    """a list read from its end may lose what was already read"""
    e = s.iter
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'reversed' and how.startswith(('.pop()', 'item deletion'))


def counters(s):
    """variables that every iteration of the while statement changes by the same nonzero amount, and that nothing else in it assigns"""
    out = getattr(s, '_counters', None)
    if out is None:
        step, stores = {}, {}
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
            elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)):
                s._counters = []
                return []
        for n in s.body:
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)):
                x, c = n.target.id, n.value
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) \
                    and isinstance(n.value.op, (ast.Add, ast.Sub)) and isinstance(n.value.left, ast.Name) and n.value.left.id == n.targets[0].id:
                x, c = n.targets[0].id, n.value.right
            else:
                if any(isinstance(y, ast.Continue) for y in ast.walk(n)):
                    break
                continue
            if isinstance(c, ast.Constant) and isinstance(c.value, int) and c.value and stores.get(x) == 1:
                step[x] = c.value
        out = s._counters = sorted(step)
    return out


def same_place(s, node):
    """the receiver of the operation is written as the iterated container is, and nothing in the loop rebinds any part of it"""
    e = s.iter
    while True:
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args:
            e = e.func.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'reversed', 'iter') and len(e.args) == 1:
            e = e.args[0]
        else:
            break
    r = node
    if isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute):
        r = r.func.value
    elif isinstance(r, ast.Subscript):
        r = r.value
    elif isinstance(r, ast.AugAssign):
        r = r.target
    else:
        return False
    if not isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)) or ast.dump(e).replace('Store()', 'Load()') != ast.dump(r).replace('Store()', 'Load()'):
        return False
    names, attrs, subs = set(), set(), False
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            names.add(n.id)
        elif isinstance(n, ast.Attribute):
            attrs.add(n.attr)
        elif isinstance(n, ast.Subscript):
            subs = True
        elif not isinstance(n, (ast.Constant, ast.Load, ast.Store, ast.Tuple)):
            return False
    if isinstance(node, ast.AugAssign):
        inner = {id(node.target)}
    else:
        inner = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names and id(n) not in inner:
            return False
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in attrs and id(n) not in inner:
            return False
        if subs and isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in inner:
            return False
        if (attrs or subs) and isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and n.func.attr in ('remove', 'discard', 'add', 'append')) \
                and not (isinstance(n.func, ast.Name) and n.func.id in ('len', 'min', 'max', 'sum', 'range', 'isinstance')) and n is not node:
            # a call might rebind the attribute or the entry
            if not any(x is n for x in ast.walk(s.iter)):
                return False
    return True


def known_member(s, node, how):
    """the key or element given is the one the loop is at: nothing is added"""
    if not how.startswith(('implicit insertion', '.add()')):
        return False
    t = s.target.elts[0] if isinstance(s.target, ast.Tuple) and s.target.elts else s.target
    k = node.slice if isinstance(node, ast.Subscript) else node.args[0] if isinstance(node, ast.Call) and node.args else None
    return isinstance(t, ast.Name) and isinstance(k, ast.Name) and k.id == t.id


def inst_cont(c, f):
    return I.Cont(None if c.ex is None else tuple(f(x) for x in c.ex), f(c.e), f(c.k), {k: f(v) for k, v in c.a.items()}, c.ne, c.ln)


def allocates(e):
    """may evaluating this expression create objects"""
    a = getattr(e, '_allocates', None)
    if a is None:
        a = any(isinstance(x, (ast.Call, ast.List, ast.Tuple, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp,
                               ast.BinOp, ast.Slice, ast.Starred, ast.Yield, ast.YieldFrom, ast.Attribute, ast.Subscript)) for x in ast.walk(e))
        e._allocates = a
    return a
