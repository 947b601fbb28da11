"""Flow-sensitive abstract interpreter for the library (no execution of the analysed code).

Domain: scalars (None/bool/int intervals with parity/float/str constants/unknown) x allocation-site objects with
recency, closures, classes; parameter regions (access paths rooted at a parameter), module-level regions.
Interprocedural: nested functions are analysed in line (recursion by fixpoint); module-level functions and methods either
through context-keyed summaries (mode 'summary') or in line (mode 'inline').
"""
import ast
import builtins as _b
from .absval import *
from .absval import _add  # noqa
from .project import FuncInfo, ClassInfo
from . import records

MAXPATH = 5


class Budget(Exception):
    pass


LNCAP = 16


def clampln(ln):
    if ln is None:
        return None
    lo, hi = ln
    lo = max(0, min(lo, LNCAP))
    if hi is not None and hi > LNCAP:
        hi = None
    return None if lo == 0 and hi is None else (lo, hi)


def lnjoin(a, b):
    return (min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))


class Cont(object):
    """contents of an abstract object"""
    __slots__ = ('ex', 'e', 'k', 'a', 'ne', 'ln')

    def __init__(self, ex=None, e=BOT, k=BOT, a=None, ne=False, ln=None):
        self.ex, self.e, self.k, self.a, self.ne = ex, e, k, (a or {}), ne
        self.ln = clampln(ln)        # number of elements: None (nothing known) or (lo, hi)

    def __eq__(self, o):
        return self is o or (self.ex == o.ex and self.e == o.e and self.k == o.k and self.a == o.a and self.ne == o.ne and self.ln == o.ln)

    def length(self):
        """(lo, hi) bounds of the number of elements (of the number of distinct-or-equal entries, for a set literal)"""
        if self.ex is not None:
            return (len(self.ex), len(self.ex))
        lo, hi = self.ln or (0, None)
        return (max(lo, 1) if self.ne else lo, hi)

    def __ne__(self, o):
        return not self == o

    def elems(self):
        if self.ex is not None:
            return joins(self.ex)
        return self.e

    def weak(self):
        if self.ex is None:
            return self
        return Cont(None, joins(self.ex), self.k, self.a, self.ne, (len(self.ex), len(self.ex)))

    def __repr__(self):
        return 'Cont(ex=%r e=%r k=%r a=%r ln=%r)' % (self.ex, self.e, self.k, self.a, self.ln)


EMPTY = Cont()


def maybe_set(v):
    """attribute value that some paths leave as it was"""
    return v if v.ub else v.with_(ub=2)


def cjoin(x, y, f=join):
    if x is y or x == y:
        return x
    if x.ex is not None and y.ex is not None and len(x.ex) == len(y.ex):
        ex = tuple(f(a, b) for a, b in zip(x.ex, y.ex))
        e = BOT
    else:
        ex, e = None, f(x.elems(), y.elems())
    a = dict(x.a)
    for k, v in y.a.items():
        a[k] = f(a[k], v) if k in a else maybe_set(v)
    for k, v in x.a.items():
        if k not in y.a:
            a[k] = maybe_set(v)
    ln = None
    if ex is None:
        lx = x.length()
        ln = lnjoin(lx, y.length())
        if f is widen and ln != lx:
            ln = (lx[0] if ln[0] == lx[0] else 0, lx[1] if ln[1] == lx[1] else None)
    return Cont(ex, e, f(x.k, y.k), a, x.ne and y.ne, ln)


class State(object):
    __slots__ = ('env', 'store', 'fl', 'must', 'dead', 'cor', 'tests')

    def __init__(self):
        self.env, self.store, self.fl, self.must, self.dead = {}, {}, {}, {}, False
        self.tests = {}          # variable -> (expression it was set from, names read, reads the heap, values of calls in it)
        self.cor = {}            # possibly unassigned variable -> {(flag, constant, negated)}: it is assigned whenever flag == constant (!=)

    def copy(self):
        s = State()
        s.cor = dict(self.cor) if self.cor else {}
        s.tests = dict(self.tests) if self.tests else {}
        s.env, s.store, s.fl, s.must, s.dead = dict(self.env), dict(self.store), dict(self.fl), dict(self.must), self.dead
        return s

    def become(self, o):
        if o is None:
            self.dead = True
        else:
            self.env, self.store, self.fl, self.must, self.dead, self.cor, self.tests = o.env, o.store, o.fl, o.must, o.dead, o.cor, o.tests

    def same(self, o):
        return self.env == o.env and self.store == o.store and self.fl == o.fl and self.must == o.must and self.cor == o.cor and self.tests == o.tests


def only_const(v):
    try:
        return (v.const(),)
    except KeyError:
        return None


def excludes(v, c):
    """v is certainly not the constant c"""
    if v.u or v.ub:
        return False
    if c is None:
        return not v.n
    if isinstance(c, bool):
        iv = v.i
        return not (v.b & (2 if c else 1)) and v.f is None and (iv is None or (iv[0] is not None and iv[0] > int(c)) or (iv[1] is not None and iv[1] < int(c)))
    if isinstance(c, int):
        iv = v.ivl()
        return v.f is None and (iv is None or (iv[0] is not None and iv[0] > c) or (iv[1] is not None and iv[1] < c))
    return False


def cor_holds(env, cond):
    flag, c, neg = cond
    v = env.get(flag)
    if v is None:
        return False
    if neg in ('ge', 'le'):
        iv = v.ivl() if v.intlike() else None
        return iv is not None and (iv[0] is not None and iv[0] >= c if neg == 'ge' else iv[1] is not None and iv[1] <= c)
    if not neg:
        k = only_const(v)
        return k is not None and k[0] == c and type(k[0]) is type(c)
    return excludes(v, c)


def cor_fails(env, cond):
    """the condition is certainly false (or its flag does not exist)"""
    flag, c, neg = cond
    v = env.get(flag)
    if v is None or v.ub:
        return False
    if neg in ('ge', 'le'):
        iv = v.ivl() if v.intlike() else None
        return iv is not None and (iv[1] is not None and iv[1] < c if neg == 'ge' else iv[0] is not None and iv[0] > c)
    if neg:
        k = only_const(v)
        return k is not None and k[0] == c and type(k[0]) is type(c)
    return excludes(v, c)


def jcor(a, b, env):
    out = {}
    for k, v in env.items():
        if not v.ub:
            continue
        va, vb = a.env.get(k), b.env.get(k)
        cand = set(a.cor.get(k, ())) | set(b.cor.get(k, ()))
        for x, y, vx in ((a, b, va), (b, a, vb)):
            if vx is not None and not vx.ub and (y.env.get(k) is None or y.env[k].ub):
                for fl, w in y.env.items():
                    if fl == k or fl[0] != k[0]:
                        continue
                    u = x.env.get(fl)
                    if u is None or u is w or u.ub or w.ub:
                        continue
                    d = only_const(w)
                    if d is not None and (d[0] is None or isinstance(d[0], int)) and excludes(u, d[0]):
                        cand.add((fl, d[0], True))
                    d = only_const(u)
                    if d is not None and (d[0] is None or isinstance(d[0], int)) and excludes(w, d[0]):
                        cand.add((fl, d[0], False))
                    if u.intlike() and w.intlike():
                        iu, iw = u.ivl(), w.ivl()
                        if iu[0] is not None and iw[1] is not None and iu[0] > iw[1]:
                            cand.add((fl, iu[0], 'ge'))
                        if iu[1] is not None and iw[0] is not None and iu[1] < iw[0]:
                            cand.add((fl, iu[1], 'le'))
        if cand:
            keep = frozenset(c for c in cand if all(
                (s.env.get(k) is not None and not s.env[k].ub) or c in s.cor.get(k, ()) or cor_fails(s.env, c) for s in (a, b)))
            if keep:
                out[k] = keep
    return out


def one_sided(k, c):
    if c.a and k.root != 'A':
        return Cont(c.ex, c.e, c.k, {x: maybe_set(v) for x, v in c.a.items()}, c.ne, c.ln)
    return c


def jstate(a, b, f=join, softnew=False):
    if a is None or a.dead:
        return b if b is not None and not b.dead else None
    if b is None or b.dead:
        return a
    if a is b:
        return a
    r = State()
    e = {}
    ae, be = a.env, b.env
    for k, v in ae.items():
        w = be.get(k)
        if w is v:
            e[k] = v
        elif w is None:
            e[k] = v if v.ub else v.with_(ub=1 if softnew else 2)
        else:
            e[k] = f(v, w)
    for k, w in be.items():
        if k not in ae:
            e[k] = w if w.ub else w.with_(ub=1 if softnew else 2)
    r.env = e
    r.cor = jcor(a, b, e)
    if a.tests and b.tests:
        r.tests = {k: t for k, t in a.tests.items() if b.tests.get(k) == t}
    s = dict(a.store)
    for k, c in b.store.items():
        d = s.get(k)
        if d is None:
            s[k] = one_sided(k, c)
        elif d is not c:
            s[k] = cjoin(d, c, f)
    for k, c in a.store.items():
        if c.a and k.root != 'A' and k not in b.store:
            s[k] = one_sided(k, c)
    r.store = s
    if a.fl == b.fl:
        r.fl = dict(a.fl)
    else:
        fl = dict(a.fl)
        for k, c in b.fl.items():
            fl[k] = fl.get(k, frozenset()) | c
        r.fl = fl
    m = {}
    for k, c in a.must.items():
        if k in b.must:
            d = c & b.must[k]
            if not d and 'H' in c | b.must[k] and not (c | b.must[k]) - {'S', 'H'} and c and b.must[k]:
                d = frozenset(['H'])        # what is in order is a heap
            if d:
                m[k] = d
        elif k.root == 'A' and k not in b.store:
            m[k] = c
    for k, c in b.must.items():
        if k not in a.must and k.root == 'A' and k not in a.store:
            m[k] = c
    r.must = m
    return r


class Frame(object):
    __slots__ = ('fn', 'rets', 'yields', 'ystates', 'loops', 'uid', 'module', 'call', 'cls', 'fixing')

    def __init__(self, fn, call=None):
        self.fn = fn
        self.rets, self.yields, self.ystates, self.loops = [], BOT, [], []
        self.fixing = 0         # loops being iterated to a fixpoint
        self.uid = fn.uid
        self.module = fn.module
        self.call = call
        f = fn
        while f.parent is not None:
            f = f.parent
        self.cls = f.cls


class Summary(object):
    def __init__(self):
        self.ret = BOT
        self.conts = {}       # obj -> Cont for everything reachable from ret / changed params
        self.pstores = {}     # P obj -> Cont (final)
        self.muts = {}        # (obj) -> (how, chain)
        self.effects = {}     # (kind, ...) -> chain
        self.raises = set()
        self.normal = False
        self.must = {}
        self.sig = None

    def signature(self):
        return (repr(self.ret), sorted((repr(k), repr(v)) for k, v in self.conts.items()),
                sorted((repr(k), repr(v)) for k, v in self.pstores.items()), sorted(map(repr, self.muts)), sorted(map(repr, self.effects)), sorted(self.raises),
                self.normal, sorted((repr(k), sorted(v)) for k, v in self.must.items()))


class Event(object):
    __slots__ = ('kind', 'fn', 'node', 'what', 'extra')

    def __init__(self, kind, fn, node, what, extra=None):
        self.kind, self.fn, self.node, self.what, self.extra = kind, fn, node, what, extra

    def where(self):
        return '%s:%s line %s' % (self.fn.module.relpath, self.fn.qual, getattr(self.node, 'lineno', '?'))


def shape_key(s):
    return s if not isinstance(s, list) else tuple(shape_key(x) for x in s)


class Interp(object):
    def __init__(self, proj, mode='summary', budget=4000000, max_inline=12):
        self.proj = proj
        self.mode = mode
        self.budget = budget
        self.steps = 0
        self.max_inline = max_inline
        self.events = {}
        self.summaries = {}
        self.in_progress = {}
        self.gcache = {}
        self.cfields = {}
        self.unsupported = {}
        self.loopsites = {}      # loop statement -> objects made in it
        self.resized = {}        # for statement -> (how, node) of a resizing of what it runs over
        self.hooks = []          # callables(kind, interp, node, **data)
        self.calls_resolved = 0
        self.calls_unresolved = {}
        self.certain_failures = {}
        self.edges = {}          # fn -> set of called fn
        self.analysed = set()
        self.visited_nodes = set()
        self.tables = {}         # module-level increasing sequences of integers: object key -> values
        self.peel = 0            # iterations of a loop with a decided test that are analysed one by one
        self.prot = 0            # inside a try whose handler catches programming errors
        self.uses = None         # (context, role, node) -> joined operand values, when collecting
        self.entries = {}        # (context, node) -> (function, why two entries of a sort or a heap cannot be put in order)
        self.oracles = {}        # fn -> callable(run, bound, st, node): assumed result of a call (None: no assumption)
        self.ext_oracles = {}    # (module, name) -> the same for library functions
        self.loads = {}          # (context, node) -> {'ok', 'hard'}

    # ------------------------------------------------------------------ events
    def event(self, kind, node, what, extra=None):
        if self.prot and kind in ('noattr', 'noname', 'arity', 'unbound', 'contattr', 'noneattr'):
            return
        fn = self.run.frame.fn if self.run and self.run.frame else None
        k = (kind, fn, id(node), str(what))
        if k not in self.events:
            self.events[k] = Event(kind, fn, node, what, extra)

    def record_statements(self):
        if self.records is None:
            self.records = {}
            for f in self.proj.functions:
                if f.parent is None:
                    self.records.update(records.record_statements(f.node))
        return self.records

    records = None
    sorted_params = ()

    def hook(self, hk_, node, **kw):
        for h in self.hooks:
            h(hk_, self, node, kw)

    run = None

    def proj_class(self, name):
        for c in self.proj.classes:
            if c.name == name:
                return c
        return None

    # ------------------------------------------------------------------ shapes
    # shape := ('v', Val)                              scalar value
    #        | ('o', kind, data, ex, e, k)              object; ex tuple of shapes or None
    #        | ('u', shapes...)                         union
    def val_of_shape(self, sh, key, store):
        """build value for shape rooted at key (tuple); register contents in `store`"""
        t = sh[0]
        if t == 'v':
            return sh[1]
        if t == 'u':
            return joins([self.val_of_shape(x, key, store) for x in sh[1:]])
        if t == 'o':
            kind, data, ex, e, k = sh[1:6]
            o = Obj(kind, key, data)
            if len(key) > MAXPATH + 2:
                return Val(o=frozenset([Obj('rgn', key)]))
            if o not in store:
                store[o] = EMPTY
                c = Cont()
                if ex is not None:
                    c.ex = tuple(self.val_of_shape(x, key + (i,), store) for i, x in enumerate(ex))
                if e is not None:
                    c.e = self.val_of_shape(e, key + ('e',), store)
                if k is not None:
                    c.k = self.val_of_shape(k, key + ('k',), store)
                store[o] = c
            return vobj(o)
        if t == 'const':
            return vobj(sh[1])
        raise ValueError(sh)

    def shape_of_val(self, st, v, depth=0):
        """generalised shape of a value for a summary key"""
        parts = []
        sc = Val(v.n, v.b, None if v.i is None else ANY_INT, None if v.f is None else (None, None), v.s if v.s is None or depth == 0 else True, u=v.u)
        if v.u and 'opaque' in v.t:
            sc = sc.with_(t=OPAQUE.t)
        if not sc.is_bot():
            parts.append(('v', sc))
        bykind = {}
        for o in v.o:
            if o.kind in ('func', 'class', 'builtin', 'extattr', 'bmeth', 'pmeth', 'lib', 'ext'):
                parts.append(('const', o))
                continue
            kd = (o.kind, o.data)
            bykind.setdefault(kd, []).append(o)
        for (kind, data), objs in sorted(bykind.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            if kind == 'inst' or kind == 'rgn' or depth >= 3:
                parts.append(('o', kind, data, None, None, None))
                continue
            c = None
            for o in objs:
                d = self.cont(st, o)
                c = d if c is None else cjoin(c, d)
            ex = e = k = None
            if c.ex is not None and len(c.ex) <= 6:
                ex = tuple(self.shape_of_val(st, x, depth + 1) for x in c.ex)
            else:
                el = c.elems()
                if not el.is_bot():
                    e = self.shape_of_val(st, el, depth + 1)
            if not c.k.is_bot():
                k = self.shape_of_val(st, c.k, depth + 1)
            parts.append(('o', kind, data, ex, e, k))
        if not parts:
            return ('v', BOT)
        if len(parts) == 1:
            return parts[0]
        return ('u',) + tuple(parts)

    # ------------------------------------------------------------------ contents
    def cont(self, st, o):
        c = st.store.get(o)
        if c is not None:
            return c
        c = self.run.lazy.get(o)
        if c is not None:
            return c
        c = self.lazy_cont(o)
        self.run.lazy[o] = c
        return c

    def lazy_cont(self, o):
        if o.kind == 'rgn':
            if len(o.key) > MAXPATH + 2:
                return Cont(e=UNK, k=UNK)
            r = vobj(Obj('rgn', o.key + ('e',))).with_(u=True)
            return Cont(e=r, k=UNK)
        if o.kind == 'inst' and isinstance(o.data, ClassInfo):
            return Cont(e=BOT, k=BOT)
        if o.root == 'G':
            return self.global_cont(o)
        return Cont(e=UNK if o.root != 'A' else BOT, k=UNK if o.root != 'A' else BOT)

    def attr_of(self, st, o, name):
        """attribute content of an inst object"""
        c = self.cont(st, o)
        if name in c.a:
            v = c.a[name]
            if not v.ub:
                return v
            v = v.with_(ub=0)
            old = self.attr_before(st, o, name)
            return v if old is None else join(v, old)
        return self.attr_before(st, o, name)

    def attr_before(self, st, o, name):
        """attribute content of an inst object before the function stored anything in it"""
        if getattr(self, 'constructing', None) == o and name not in self.class_fields(o.data):
            return None
        if isinstance(o.key, tuple) and o.kind in ('inst', 'rgn') and o.root != 'A':
            lz = self.run.lazyattr.get((o, name))
            if lz is None:
                key = o.key + ('a:' + name,)
                if len(key) > MAXPATH + 2:
                    lz = UNK
                elif o.kind == 'inst':
                    sh = self.class_fields(o.data).get(name)
                    if sh is None:
                        lz = vobj(Obj('rgn', key)).with_(u=True)
                    else:
                        lz = self.val_of_shape(sh, key, self.run.lazy)
                else:
                    lz = vobj(Obj('rgn', key)).with_(u=True)
                self.run.lazyattr[(o, name)] = lz
            return lz
        return None

    def class_fields(self, cls):
        """attr -> shape, inferred from what __init__ (and other methods) store on self"""
        if cls in self.cfields:
            return self.cfields[cls]
        self.cfields[cls] = {}
        out = {}
        for rnd in range(4):
            before = dict(out)
            for c in reversed(self.proj.mro(cls)):
                ms = list(c.methods.items())
                ms.sort(key=lambda kv: kv[0] != '__init__')
                for name, m in ms:
                    if (name == '__init__') != (rnd == 0):
                        continue
                    if not m.params or m.decorators or m.is_gen:
                        continue
                    shapes = self.default_shapes(m, cls)
                    save = (self.run, self.events, self.hooks, self.summaries, self.calls_unresolved)
                    self.events, self.hooks, self.summaries, self.calls_unresolved = {}, [], {}, {}
                    try:
                        run = Run(self, m, shapes)
                        self.run = run
                        me = Obj('inst', ('P', m.params[0]), cls)
                        self.constructing = me if name == '__init__' else None
                        run.execute()
                        st = State()
                        st.store = run.final_store
                        names = set(out)
                        if me in run.final_store:
                            names |= set(run.final_store[me].a)
                        for a in sorted(names):
                            if run.exit is None:
                                continue
                            v = self.attr_of(st, me, a)
                            if v is None:
                                continue
                            sh = self.shape_of_val(st, v)
                            out[a] = merge_shapes(out[a], sh) if a in out else sh
                    finally:
                        self.constructing = None
                        self.run, self.events, self.hooks, self.summaries, self.calls_unresolved = save
            self.cfields[cls] = dict(out)
            if rnd and out == before:
                break
        # attributes that functions outside the class assign as well: anything may be in there
        ext = self.external_attr_stores(cls)
        for a in list(out):
            if out[a] == ('v', NONE) or a in ext:
                out[a] = merge_shapes(out[a], ('u', ('v', UNK), ('o', 'rgn', None, None, None, None)))
        self.cfields[cls] = out
        return out

    def external_attr_stores(self, cls):
        if not hasattr(self, '_extstores'):
            m = {}
            for f in self.proj.functions:
                owner = self.proj.toplevel(f).cls
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        if owner is None or not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                            m.setdefault(n.attr, set()).add(owner)
            self._extstores = m
        return {a for a, os_ in self._extstores.items() if any(o is None or o not in self.proj.mro(cls) for o in os_)}

    def default_shapes(self, fn, cls=None):
        from . import specs
        return specs.param_shapes(self, fn, cls)

    # ------------------------------------------------------------------ globals
    def global_val(self, m, name, vnode):
        k = (m.name, name)
        if k in self.gcache:
            return self.gcache[k]
        self.gcache[k] = UNK
        v = self.const_global(m, name, vnode)
        self.gcache[k] = v
        return v

    def const_global(self, m, name, vnode, owner=None):
        key = ('G', (owner or m.name), name)
        if vnode is None:
            return UNK
        if isinstance(vnode, ast.Constant):
            return vconst(vnode.value)
        if isinstance(vnode, ast.UnaryOp) and isinstance(vnode.op, ast.USub) and isinstance(vnode.operand, ast.Constant):
            return vconst(-vnode.operand.value)
        if isinstance(vnode, ast.Call) and isinstance(vnode.func, ast.Name):
            # called through another name
            f, seen = vnode.func, set()
            while f.id not in seen:
                seen.add(f.id)
                r = self.proj.resolve(m, f.id)
                if not (r and r[0] == 'var' and r[1] is m and isinstance(r[3], ast.Name)):
                    break
                f = r[3]
            if f is not vnode.func:
                vnode = ast.copy_location(ast.Call(func=f, args=vnode.args, keywords=vnode.keywords), vnode)
        kind = {ast.List: 'list', ast.ListComp: 'list', ast.Dict: 'dict', ast.DictComp: 'dict', ast.Set: 'set',
                ast.SetComp: 'set', ast.Tuple: 'tuple', ast.GeneratorExp: 'gen'}.get(type(vnode))
        if kind is None and isinstance(vnode, ast.Call) and isinstance(vnode.func, ast.Name):
            kind = {'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple', 'bytearray': 'bytearray',
                    'defaultdict': 'dict', 'Counter': 'dict', 'deque': 'deque', 'OrderedDict': 'dict',
                    'frozenset': 'frozenset'}.get(vnode.func.id)
            if vnode.func.id == 'float':
                return FLOAT
            r = self.proj.resolve(m, vnode.func.id)
            if r and r[0] == 'class':
                return vobj(Obj('inst', key, r[1]))
        if kind is None and isinstance(vnode, ast.BinOp) and isinstance(vnode.op, ast.Mult) and isinstance(vnode.left, ast.List):
            kind = 'list'
        if kind is None and isinstance(vnode, ast.Call) and isinstance(vnode.func, ast.Attribute):
            kind = {'defaultdict': 'dict', 'Counter': 'dict', 'deque': 'deque', 'OrderedDict': 'dict'}.get(vnode.func.attr)
        if kind is None and isinstance(vnode, ast.Name):
            r = self.proj.resolve(m, vnode.id)
            return self.of_res(r)
        if kind is None and isinstance(vnode, ast.Lambda):
            return vobj(Obj('func', ('F', self.proj.func_of_node[vnode].uid), self.proj.func_of_node[vnode])) if vnode in self.proj.func_of_node else UNK
        if kind is None and isinstance(vnode, ast.Call):
            fn = vnode.func
            nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
            r = self.proj.resolve(m, nm) if isinstance(fn, ast.Name) else None
            if nm in ('iter', 'map', 'filter', 'zip', 'enumerate', 'count', 'cycle', 'chain', 'accumulate', 'islice', 'product',
                      'permutations', 'combinations') and not (r and r[0] == 'func'):
                kind = 'iter'
            elif r and r[0] == 'func' and r[1].is_gen:
                kind = 'gen'
            else:
                return vobj(Obj('rgn', key)).with_(u=True)
        if kind:
            return vobj(Obj(kind, key))
        return UNK

    def global_cont(self, o):
        key = o.key
        if len(key) == 3 and o.kind in ('list', 'tuple', 'dict', 'set', 'bytearray', 'deque', 'frozenset'):
            m = self.proj.modules.get(key[1])
            vnode = None
            if m is not None and key[2] in m.assigned:
                vnode = m.assigned[key[2]]
            elif ':' in str(key[1]):
                mod, cn = key[1].split(':')
                ci = self.proj.modules[mod].classes.get(cn)
                vnode = ci.attrs.get(key[2]) if ci else None
            if isinstance(vnode, (ast.List, ast.Tuple, ast.Set)) and vnode.elts:
                if all(isinstance(x, ast.Constant) for x in vnode.elts):
                    if all(isinstance(x.value, int) for x in vnode.elts):
                        vals = [x.value for x in vnode.elts]
                        if self.peel and o.kind != 'set' and vals == sorted(vals):
                            self.tables[o.key] = vals
                            return Cont(e=mkint(min(vals), max(vals)), ne=True, ln=(len(vals), len(vals)))
                        return Cont(e=mkint(min(vals), max(vals)), ne=True)
                    return Cont(e=joins([vconst(x.value) for x in vnode.elts[:50]]), ne=True)
                return Cont(e=vobj(Obj('rgn', key + ('e',))).with_(u=True), k=UNK)
            if o.kind == 'list' and isinstance(vnode, ast.BinOp):
                return Cont(e=INT)
            return Cont(e=vobj(Obj('rgn', key + ('e',))).with_(u=True), k=UNK)
        return Cont(e=UNK, k=UNK)

    def of_res(self, r):
        if r is None:
            return None
        k = r[0]
        if k == 'func':
            return vobj(Obj('func', ('F', r[1].uid), r[1]))
        if k == 'class':
            return vobj(Obj('class', ('C', r[1].name, r[1].module.name), r[1]))
        if k == 'lib':
            return vobj(Obj('lib', ('M', r[1]), r[1]))
        if k == 'ext':
            return vobj(Obj('ext', ('M', r[1]), r[1]))
        if k == 'extattr':
            return vobj(Obj('extattr', ('X', r[1], r[2]), (r[1], r[2])))
        if k == 'builtin':
            if r[1] in ('True', 'False', 'None'):
                return vconst(eval(r[1]))
            if r[1] in ('__name__', '__file__', '__doc__'):
                return STR
            return vobj(Obj('builtin', ('B', r[1]), r[1]))
        if k == 'var':
            return self.global_val(r[1], r[2], r[3])
        return UNK

    # ------------------------------------------------------------------ summaries
    def summary(self, fn, shapes):
        key = (fn.uid, shapes) if not self.prot else (fn.uid, shapes, 'protected')
        if key in self.summaries:
            return self.summaries[key]
        if key in self.in_progress:
            self.in_progress[key][1] = True
            return self.in_progress[key][0]
        # too many contexts: fall back on the default shapes of the function
        n = sum(1 for k in self.in_progress if k[0] == fn.uid)
        if n >= 3:
            s = Summary()
            s.ret, s.normal = UNK, True
            return s
        cell = [Summary(), False]
        self.in_progress[key] = cell
        save = self.run
        try:
            for it in range(6):
                cell[1] = False
                run = Run(self, fn, dict(shapes))
                self.run = run
                s = run.execute()
                sig = s.signature()
                old = cell[0]
                stable = old.sig == sig
                s.sig = sig
                cell[0] = s
                if not cell[1] or stable:
                    break
            self.summaries[key] = cell[0]
        finally:
            self.run = save
            del self.in_progress[key]
        return cell[0]

    def analyze(self, fn, shapes=None, st0=None):
        """entry-point analysis; returns the Run"""
        if shapes is None:
            shapes = self.default_shapes(fn)
        save = self.run
        run = Run(self, fn, shapes)
        run.entry = True
        self.run = run
        try:
            run.execute()
        finally:
            self.run = save
        return run


def merge_shapes(a, b):
    if a == b:
        return a
    xs = []
    for s in (a, b):
        for p in (s[1:] if s[0] == 'u' else (s,)):
            xs.append(p)
    sc = BOT
    objs = {}
    out = []
    for p in xs:
        if p[0] == 'v':
            sc = join(sc, p[1])
        elif p[0] == 'o':
            k = (p[1], p[2])
            if k in objs:
                q = objs[k]
                e = q[4] if p[4] is None else p[4] if q[4] is None else merge_shapes(q[4], p[4])
                kk = q[5] if p[5] is None else p[5] if q[5] is None else merge_shapes(q[5], p[5])
                if q[3] is not None and p[3] is not None and len(q[3]) == len(p[3]):
                    ex = tuple(merge_shapes(x, y) for x, y in zip(q[3], p[3]))
                else:
                    ex = None
                    for z in (q[3] or ()) + (p[3] or ()):
                        e = z if e is None else merge_shapes(e, z)
                objs[k] = ('o', p[1], p[2], ex, e, kk)
            else:
                objs[k] = p
        elif p not in out:
            out.append(p)
    if not sc.is_bot():
        out.append(('v', sc))
    out.extend(objs[k] for k in sorted(objs, key=str))
    if not out:
        return ('v', BOT)
    return out[0] if len(out) == 1 else ('u',) + tuple(out)


from .run import Run  # noqa: E402
