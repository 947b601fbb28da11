"""Transfer functions for builtins, the standard library and container methods."""
import ast
import importlib
import inspect
from .absval import *
from .project import ClassInfo
from . import interp as I

LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'}
DICT_MUT = {'setdefault', 'pop', 'popitem', 'update', 'clear', 'subtract'}
SET_MUT = {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update', 'intersection_update',
           'symmetric_difference_update'}
DEQUE_MUT = {'append', 'appendleft', 'pop', 'popleft', 'extend', 'extendleft', 'rotate', 'clear', 'insert', 'remove', 'reverse'}
ANY_MUT = (LIST_MUT | DICT_MUT | SET_MUT | DEQUE_MUT)
COPIES = {'list': 'list', 'tuple': 'tuple', 'set': 'set', 'frozenset': 'frozenset', 'bytearray': 'bytearray', 'sorted': 'list'}
STR_BOOL = {'isdigit', 'startswith', 'endswith', 'isalpha', 'isspace', 'isnumeric'}
STR_INT = {'find', 'index', 'count', 'rfind'}
STR_LIST = {'split', 'rsplit', 'splitlines', 'partition'}
INT_FN = {'gcd', 'isqrt', 'floor', 'ceil', 'factorial', 'comb', 'perm', 'trunc', 'lcm'}


SIGS = {}          # (module, function) -> signature of the standard library function


def source(args):
    """the containers a lazy iterator runs over"""
    objs = frozenset(o for a in args if a is not None for o in a.o if o.kind in CONTAINER)
    return {'src': Val(o=objs)} if objs else None


class Models(object):
    # -- small helpers
    def fresh(self, st, node, kind, e=BOT, k=BOT, ex=None, sub=None, a=None, ne=False, ln=None):
        e = e.with_(sym=None, ub=0)
        return vobj(self.alloc(st, node, kind, I.Cont(ex=ex, e=e if ex is None else BOT, k=k.with_(sym=None, ub=0), a=a, ne=ne, ln=ln), sub=sub))

    def maybe_call(self, f, args, st, node):
        """f may be called zero or more times"""
        if not f.o:
            return UNK
        s = st.copy()
        v = self.call_value(f, args, {}, s, node)
        if not s.dead:
            s2 = s.copy()
            w = self.call_value(f, args, {}, s2, node)
            v = join(v, w)
            r = I.jstate(st, s)
            if not s2.dead:
                r = I.jstate(r, s2)
            st.become(r)
        return v

    def tuple_elem(self, st, node, parts, sub):
        return vobj(self.alloc(st, node, 'tuple', I.Cont(ex=tuple(p.with_(sym=None, ub=0) for p in parts)), sub=sub))

    def std_arity(self, node, mod, attr, args, kwargs):
        """does the call fit the signature the standard library declares for the function"""
        k = (mod, attr)
        if k not in SIGS:
            SIGS[k] = None
            if mod in ('builtins', 'math', 'itertools', 'heapq', 'bisect', 'random', 'functools', 'copy', 'fractions', 'collections'):
                try:
                    SIGS[k] = inspect.signature(getattr(importlib.import_module(mod), attr))
                except Exception:
                    pass
        sig = SIGS[k]
        if sig is None or '**' in kwargs:
            return
        try:
            sig.bind(*args, **kwargs)
        except TypeError as e:
            self.I.event('arity', node, '%s(): %s' % (attr, e))

    def fail(self, exc, st, node, why):
        """the operation certainly raises"""
        self.I.certain_failures[(self.ctxkey, node)] = (self.frame.fn, exc, why)
        self.do_raise(exc, st, node)
        st.dead = True
        return BOT

    def surely_empty(self, st, v):
        if v is None or v.u or v.n or v.b or v.i is not None or v.f is not None or not v.o:
            return False
        if v.s is not None:
            return False
        for o in v.o:
            if o.kind in ('gen', 'iter'):
                c = self.cont(st, o)
                if o.root != 'A' or not c.elems().is_bot() or self.recursing():
                    return False
            elif o.kind in CONTAINER:
                if self.cont(st, o).length()[1] != 0:
                    return False
            else:
                return False
        return True

    def recursing(self):
        return bool(self.I.in_progress) and self.I.mode != 'inline' or getattr(self, 'rec_depth', 0) > 0

    def is_copy_src(self, st, v):
        return v

    # ------------------------------------------------------------------ builtins
    def call_builtin(self, name, args, kwargs, st, node, star=False):
        self.effect(node, 'builtin', name)
        self.I.hook('builtin', node, st=st, name=name, args=args, kwargs=kwargs)
        if star is False:
            self.std_arity(node, 'builtins', name, args, kwargs)
        for v in args:
            if v.t and 'alien' in v.t and False:
                pass
        tags = frozenset()
        for v in args:
            tags |= v.t
        tags -= MUST_TAGS
        r = self._builtin(name, args, kwargs, st, node, star)
        if r.i is not None or r.f is not None:
            if tags and name in ('int', 'float', 'abs', 'min', 'max', 'round', 'pow', 'sum'):
                r = r.with_(t=r.t | tags)
        return r

    def _builtin(self, name, args, kwargs, st, node, star):
        a0 = args[0] if args else None
        if name in ('float', 'complex') and a0 is not None and self.big(a0):
            self.effect(node, 'float', '%s() of an integer' % name, self.frame.fn.fq, getattr(node, 'lineno', None))
        if name in COPIES:
            kind = COPIES[name]
            if a0 is None:
                o = self.fresh(st, node, kind, ex=() if kind != 'bytearray' else None, sub=name) if star is False else \
                    self.fresh(st, node, kind, e=star, sub=name)
                if kind == 'list':
                    for x in o.o:
                        st.must[x] = frozenset(['S'])
                return o
            if kind == 'bytearray':
                return self.fresh(st, node, kind, e=mkint(0, 255), sub=name)
            ex = None
            if name in ('list', 'tuple') and len(a0.o) == 1 and not a0.u and a0.s is None:
                o = next(iter(a0.o))
                if o.kind in ('list', 'tuple', 'gen', 'deque') or o.kind == 'range' and self.I.peel:
                    ex = self.cont(st, o).ex
            ln = self.len_of(st, a0)
            e = self.elems(st, a0, node)
            if st.dead:
                return BOT
            if name == 'sorted':
                key = kwargs.get('key')
                if key is not None:
                    self.maybe_call(key, [e], st, node)
                else:
                    self.ordered(st, node, e)
                v = self.fresh(st, node, kind, e=e, sub=name, ln=ln)
                if key is None and ('reverse' not in kwargs or kwargs['reverse'] == FALSE):
                    for x in v.o:
                        st.must[x] = frozenset(['S'])
                return v
            srt = name in ('list', 'tuple') and a0.o and not a0.u and all('S' in st.must.get(o, ()) or o.kind == 'range' for o in a0.o)
            if kind in ('set', 'frozenset'):
                ln = (min(ln[0], 1), ln[1])
            v = self.fresh(st, node, kind, e=e, ex=ex, sub=name, ln=ln)
            if srt:
                for x in v.o:
                    st.must[x] = frozenset(['S'])
            return v
        if name == 'dict':
            if a0 is None:
                e = joins(list(kwargs.values()))
                return self.fresh(st, node, 'dict', e=e, k=STR if kwargs else BOT, sub=name, ln=(len(kwargs), len(kwargs)))
            if any(o.kind == 'dict' for o in a0.o):
                return self.fresh(st, node, 'dict', e=self.values(st, a0), k=self.keys(st, a0), sub=name, ln=self.len_of(st, a0) if not kwargs else None)
            e = self.elems(st, a0, node)
            k, v = BOT, BOT
            for o in e.o:
                c = self.cont(st, o) if o.kind in ('tuple', 'list') else None
                if c is not None and c.ex is not None and len(c.ex) == 2:
                    k, v = join(k, c.ex[0]), join(v, c.ex[1])
                elif c is not None:
                    k, v = join(k, c.elems()), join(v, c.elems())
                else:
                    k, v = UNK, UNK
            if e.u:
                k, v = UNK, UNK
            return self.fresh(st, node, 'dict', e=v, k=k, sub=name)
        if name == 'len':
            if a0 is None:
                return NAT
            lens = []
            for o in a0.o:
                if o.kind in ('list', 'tuple', 'set', 'frozenset', 'dict', 'view', 'deque', 'range'):
                    lo, hi = self.cont(st, o).length()
                    if o.kind in ('set', 'frozenset'):
                        lo = min(lo, 1)
                    lens.append((lo, hi, None))
                    continue
                if o.kind == 'inst' and isinstance(o.data, ClassInfo):
                    m = self.proj.find_method(o.data, '__len__')
                    if m is not None:
                        v = self.call_func(m, [vobj(o)], {}, st, node)
                        if v.only_int():
                            lens.append(v.i)
                            continue
                lens.append((0, None, None))
            if a0.u or a0.s is not None or not lens:
                lens.append((0, None, None))
            i = None
            for x in lens:
                i = ijoin(i, x)
            return mkint(*i)
        if name == 'range':
            return self.mk_range(args, st, node)
        if name in ('min', 'max'):
            key = kwargs.get('key')
            if len(args) == 1 and star is False:
                e = self.elems(st, a0, node)
                if key is not None:
                    self.maybe_call(key, [e], st, node)
                else:
                    self.ordered(st, node, e)
                self.I.hook('minmax', node, st=st, arg=a0)
                if 'default' not in kwargs and self.surely_empty(st, a0):
                    return self.fail('ValueError', st, node, '%s() of an empty collection' % name)
                if 'default' in kwargs:
                    e = join(e, kwargs['default'])
                return e if not e.is_bot() else UNK
            vs = list(args) + ([star] if star is not False else [])
            if key is not None:
                self.maybe_call(key, [joins(vs)], st, node)
            v = joins(vs)
            iv = [x.ivl() for x in vs]
            if v.intlike() and all(i is not None for i in iv) and v.i is not None and star is False:
                if name == 'max':
                    los = [i[0] for i in iv if i[0] is not None]
                    his = [i[1] for i in iv]
                    return mkint(max(los) if los else None, None if None in his else max(his)).with_(t=v.t)
                his = [i[1] for i in iv if i[1] is not None]
                los = [i[0] for i in iv]
                return mkint(None if None in los else min(los), min(his) if his else None).with_(t=v.t)
            return v.with_(sym=None)
        if name == 'sum':
            e = self.elems(st, a0, node) if a0 is not None else UNK
            if len(args) == 1 and star is False and len(a0.o) == 1 and not a0.u:
                ex = self.cont(st, next(iter(a0.o))).ex
                if ex is not None and all(x.only_int() for x in ex):
                    tot = vconst(0)
                    for x in ex:
                        tot = i_add(tot.i, x.i)
                    return tot
            r = BOT
            if len(args) > 1:
                r = args[1]
                e = join(e, args[1])
            if any(o.kind in ('list', 'tuple') for o in e.o):
                inner = BOT
                for o in e.o:
                    inner = join(inner, self.elems(st, vobj(o), node))
                return self.fresh(st, node, 'list', e=inner, sub='sum')
            lo = None
            i = e.ivl()
            if i is not None:
                r = join(r, mkint(0, None) if i[0] is not None and i[0] >= 0 else INT)
            if e.f is not None:
                r = join(r, FLOAT)
                r = join(r, mkint(0, 0))
            if e.u:
                r = join(r, UNK)
            for o in e.o:
                r = join(r, UNK)
            return join(r, mkint(0, 0)).with_(sym=None) if len(args) < 2 else r.with_(sym=None)
        if name == 'abs':
            r = BOT
            i = a0.ivl() if a0 else None
            if i is not None:
                lo, hi, par = i
                if lo is not None and lo >= 0:
                    r = join(r, mkint(lo, hi, par))
                elif hi is not None and hi <= 0:
                    r = join(r, mkint(-hi, None if lo is None else -lo, par))
                else:
                    r = join(r, mkint(0, None if lo is None or hi is None else max(-lo, hi), par))
            if a0 is not None and a0.f is not None:
                r = join(r, Val(f=(0.0, None)))
            if a0 is None or a0.u or a0.o:
                r = join(r, UNK)
            return r
        if name == 'int':
            if a0 is None:
                return vconst(0)
            self.I.hook('int_of', node, st=st, val=a0)
            r = BOT
            i = a0.ivl()
            if i is not None:
                r = join(r, mkint(*i))
            if a0.f is not None:
                import math
                lo, hi = a0.f
                try:
                    r = join(r, mkint(None if lo is None else math.floor(lo), None if hi is None else math.ceil(hi)))
                except (OverflowError, ValueError):
                    r = join(r, INT)
            if a0.s is not None or a0.u or a0.o:
                r = join(r, INT)
            return r if not r.is_bot() else INT
        if name == 'float':
            return self.float_of(a0)
        if name in ('str', 'repr', 'bin', 'hex', 'oct', 'chr', 'format', 'ascii'):
            for o in (a0.o if a0 is not None else ()):
                if o.kind == 'inst' and isinstance(o.data, ClassInfo) and name in ('str', 'repr'):
                    m = self.proj.find_method(o.data, '__str__') or self.proj.find_method(o.data, '__repr__')
                    if name == 'repr':
                        m = self.proj.find_method(o.data, '__repr__')
                    if m is not None:
                        self.call_func(m, [vobj(o)], {}, st, node)
            return STR
        if name == 'bool':
            if a0 is None:
                return FALSE
            return Val(b=self.truth(st, a0))
        if name in ('isinstance', 'issubclass', 'callable', 'hasattr'):
            if name == 'isinstance' and a0 is not None and isinstance(node, ast.Call) and len(node.args) == 2:
                y, n = self.isinstance_split(a0, node.args[1], st)
                return Val(b=((2 if y is not None else 0) | (1 if n is not None else 0)) or 3)
            return BOOL
        if name in ('all', 'any'):
            if a0 is not None:
                self.elems(st, a0, node)
            return BOOL
        if name == 'pow':
            if len(args) == 3:
                m = args[2].ints()
                self.I.hook('pow3', node, st=st, args=args)
                if m is not None and m[0] is not None and m[0] >= 1:
                    return mkint(0, None if m[1] is None else m[1] - 1)
                return INT if args[2].intlike() else UNK
            if len(args) == 2:
                return self.binop(ast.Pow(), args[0], args[1], st, node)
            return UNK
        if name == 'divmod':
            if len(args) == 2:
                q = self.binop(ast.FloorDiv(), args[0], args[1], st, node)
                r = self.binop(ast.Mod(), args[0], args[1], st, node)
                return self.tuple_elem(st, node, [q, r], 'divmod')
            return UNK
        if name == 'round':
            if len(args) > 1:
                return FLOAT
            self.I.hook('int_of', node, st=st, val=a0)
            return INT
        if name in ('hash', 'id', 'ord'):
            return INT
        if name == 'enumerate':
            e = self.elems(st, a0, node) if a0 is not None else UNK
            s = args[1] if len(args) > 1 else kwargs.get('start', vconst(0))
            i = s.ints() or ANY_INT
            t = self.tuple_elem(st, node, [mkint(i[0], None), e], 'enumelem')
            return self.fresh(st, node, 'iter', e=t, sub='enumerate', a=source([a0]))
        if name == 'zip':
            parts = [self.elems(st, a, node) for a in args]
            if star is not False:
                t = self.fresh(st, node, 'tuple', e=joins(parts + [self.elems(st, star, node)]), sub='zipelem')
            else:
                t = self.tuple_elem(st, node, parts, 'zipelem')
            return self.fresh(st, node, 'iter', e=t, sub='zip', a=source(args))
        if name == 'map':
            parts = [self.elems(st, a, node) for a in args[1:]]
            v = self.maybe_call(a0, parts, st, node) if a0 is not None else UNK
            return self.fresh(st, node, 'iter', e=v, sub='map', a=source(args[1:]))
        if name == 'filter':
            e = self.elems(st, args[1], node) if len(args) > 1 else UNK
            if a0 is not None and not a0.only_none():
                self.maybe_call(a0, [e], st, node)
            return self.fresh(st, node, 'iter', e=e, sub='filter', a=source(args[1:]))
        if name in ('reversed', 'iter'):
            e = self.elems(st, a0, node) if a0 is not None else UNK
            # an iterator passed to iter() is itself
            if name == 'iter' and a0 is not None and a0.o and all(o.kind in ('gen', 'iter') for o in a0.o) and not a0.u:
                return a0
            return self.fresh(st, node, 'iter', e=e, sub=name, a=source([a0]))
        if name == 'next':
            e = self.elems(st, a0, node) if a0 is not None else UNK
            self.I.hook('advance', node, st=st, iterval=a0)
            if len(args) > 1:
                e = join(e, args[1])
            else:
                self.I.hook('next1', node, st=st, arg=a0)
                if self.surely_empty(st, a0):
                    return self.fail('StopIteration', st, node, 'next() of an exhausted iterator')
            return e if not e.is_bot() else UNK
        if name == 'getattr':
            if len(args) >= 2 and args[1].s not in (None, True) and len(args[1].s) == 1:
                v = self.load_attr(a0, next(iter(args[1].s)), st, node)
                return join(v, args[2]) if len(args) > 2 else v
            return UNK
        if name == 'setattr':
            if a0 is not None:
                for o in a0.o:
                    if o.kind in ('func', 'class', 'lib', 'ext'):
                        self.I.event('gmut', node, 'setattr on %s' % (o.data,), o)
                    else:
                        self.mutate(st, o, node, 'setattr')
            return NONE
        if name == 'delattr':
            for o in (a0.o if a0 is not None else ()):
                self.mutate(st, o, node, 'delattr')
            return NONE
        if name == 'print':
            return NONE
        if name == 'type':
            r = BOT
            for o in (a0.o if a0 is not None else ()):
                if o.kind == 'inst' and isinstance(o.data, ClassInfo):
                    r = join(r, vobj(Obj('class', ('C', o.data.name, o.data.module.name), o.data)))
                else:
                    r = join(r, UNK)
            return UNK if r.is_bot() else r
        if name == 'slice':
            return UNK
        if name == 'super':
            return UNK
        if name == 'object':
            return UNK
        return UNK

    def float_of(self, a0):
        if a0 is None:
            return vconst(0.0)
        r = BOT
        i = a0.ivl()
        if i is not None:
            try:
                r = join(r, Val(f=(None if i[0] is None else float(i[0]), None if i[1] is None else float(i[1]))))
            except OverflowError:
                r = join(r, FLOAT)
        if a0.f is not None:
            r = join(r, Val(f=a0.f))
        if a0.s is not None:
            try:
                r = join(r, Val(f=(float(next(iter(a0.s))),) * 2) if a0.s is not True and len(a0.s) == 1 else FLOAT)
            except ValueError:
                r = join(r, FLOAT)
        if a0.u or a0.o:
            r = join(r, FLOAT)
        return r

    def mk_range(self, args, st, node):
        self.I.hook('range', node, st=st, args=args)
        ivs = [a.ints() or ANY_INT for a in args]
        if len(ivs) == 1:
            a, b, s = (0, 0, 0), ivs[0], (1, 1, 1)
        elif len(ivs) == 2:
            a, b, s = ivs[0], ivs[1], (1, 1, 1)
        elif len(ivs) == 3:
            a, b, s = ivs
        else:
            return self.fresh(st, node, 'range', e=INT, sub='range')
        ne = False
        ln = None
        e = INT
        if s[0] == s[1] == 1:
            ln = (0 if b[0] is None or a[1] is None else max(0, b[0] - a[1]), None if b[1] is None or a[0] is None else max(0, b[1] - a[0]))
        if s[0] is not None and s[0] >= 1:
            hi = None if b[1] is None else b[1] - 1
            par = a[2] if s[2] == 0 and s[0] == s[1] else None
            e = mkint(a[0], hi, par)
            ne = a[1] is not None and b[0] is not None and a[1] < b[0]
        elif s[1] is not None and s[1] <= -1:
            lo = None if b[0] is None else b[0] + 1
            e = mkint(lo, a[1])
            ne = a[0] is not None and b[1] is not None and a[0] > b[1]
        ex = None
        if self.I.peel and all(x is not None and x[0] is not None and x[0] == x[1] for x in (a, b, s)) and s[0]:
            if len(range(a[0], b[0], s[0])) <= 6:
                ex = tuple(mkint(x, x) for x in range(a[0], b[0], s[0]))
        if ex is not None:
            return self.fresh(st, node, 'range', ex=ex, sub='range')
        return self.fresh(st, node, 'range', e=e, sub='range', ne=ne, ln=ln)

    # ------------------------------------------------------------------ bound methods of builtins
    def call_bmeth(self, o, args, kwargs, st, node, star=False):
        recv, attr = o.key
        if isinstance(attr, tuple):
            return mkint(*attr)
        self.I.hook('bmeth', node, st=st, recv=recv, attr=attr, args=args, kwargs=kwargs, kind=o.data)
        if recv == 'scalar':
            return self.scalar_method(attr, args, st, node, o.data)
        if recv == 'unknown':
            return self.unknown_method(attr, args, kwargs, st, node)
        if recv.kind == 'rgn':
            return self.rgn_method(recv, attr, args, kwargs, st, node)
        k = recv.kind
        f = getattr(self, 'm_' + k, None)
        if f is None:
            return UNK
        return f(recv, attr, args, kwargs, st, node)

    def scalar_method(self, attr, args, st, node, data):
        if attr in STR_BOOL:
            return BOOL
        if attr in STR_INT or attr in ('bit_length', 'bit_count'):
            return NAT
        if attr in STR_LIST:
            return self.fresh(st, node, 'list', e=STR, sub='strlist')
        if attr == 'join':
            for a in args:
                self.elems(st, a, node)
            return STR
        if attr in ('format', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'zfill', 'ljust', 'rjust', 'center', 'capitalize'):
            return STR
        if attr in ('numerator', 'denominator', 'real', 'imag'):
            return INT
        return UNK

    def unknown_method(self, attr, args, kwargs, st, node):
        self.I.hook('unkmeth', node, st=st, attr=attr, args=args)
        if attr in STR_BOOL:
            return BOOL
        return UNK

    def rgn_method(self, o, attr, args, kwargs, st, node):
        if attr in ANY_MUT:
            self.mutate(st, o, node, '.%s()' % attr)
        c = self.cont(st, o)
        if attr in ('items',):
            t = self.tuple_elem(st, node, [c.k if not c.k.is_bot() else UNK, c.elems()], 'item')
            return self.fresh(st, node, 'iter', e=t, sub='items')
        if attr == 'copy':
            return self.fresh(st, node, 'list', e=c.elems(), sub='copy').with_(u=True)
        if attr in ('values', 'get', 'pop', 'popleft', 'setdefault'):
            if attr == 'values':
                return self.fresh(st, node, 'iter', e=c.elems(), sub='values')
            return join(c.elems(), NONE) if attr == 'get' else c.elems()
        if attr in ('keys',):
            return self.fresh(st, node, 'iter', e=UNK, sub='keys')
        return UNK

    def weaken(self, st, o, same_length=False):
        c = self.cont(st, o)
        lo, hi = c.length()
        if c.ex is not None or c.ne or c.ln:
            st.store[o] = I.Cont(None, c.elems(), c.k, c.a, False, (lo, hi) if same_length else (0, hi))

    def m_list(self, o, attr, args, kwargs, st, node):
        c = self.cont(st, o)
        a0 = args[0] if args else UNK
        if attr in LIST_MUT or attr in DEQUE_MUT:
            self.mutate(st, o, node, '.%s()' % attr)
        if attr in ('append', 'appendleft'):
            single = (o.root == 'A' and not o.rec)
            if single and attr == 'append' and c.ex is not None and len(c.ex) < 8 and not (self.frame.fixing if self.I.peel else self.frame.loops):
                st.store[o] = I.Cont(c.ex + (a0.with_(sym=None, ub=0),), c.e, c.k, c.a)
            else:
                lo, hi = c.length()
                self.add_elem(st, o, a0)
                d = st.store[o]
                st.store[o] = I.Cont(d.ex, d.e, d.k, d.a, False, (lo + (1 if single else 0), None if hi is None else hi + 1))
            self.I.hook('append', node, st=st, obj=o, val=a0)
            return NONE
        if attr in ('extend', 'extendleft'):
            n = self.len_of(st, a0)
            self.add_elem(st, o, self.elems(st, a0, node), n=n)
            self.I.hook('extend', node, st=st, obj=o, val=a0)
            return NONE
        if attr == 'insert':
            c = self.cont(st, o)
            if c.ex is not None:
                st.store[o] = c.weak()
            self.add_elem(st, o, args[1] if len(args) > 1 else UNK, n=(1, 1))
            return NONE
        if attr in ('pop', 'popleft'):
            if c.length()[1] == 0:
                return self.fail('IndexError', st, node, '%s() of an empty list' % attr)
            r = c.elems()
            if c.ex is not None and c.ex and not args and o.root == 'A' and not o.rec:
                r = c.ex[-1] if attr == 'pop' else c.ex[0]
                st.store[o] = I.Cont(c.ex[:-1] if attr == 'pop' else c.ex[1:], c.e, c.k, c.a)
            elif c.ex is None and o.root == 'A' and not o.rec and self.I.peel:
                lo, hi = c.length()
                st.store[o] = I.Cont(None, c.e, c.k, c.a, False, (max(lo - 1, 0), None if hi is None else hi - 1))
            else:
                self.weaken(st, o)
            return r if not r.is_bot() else UNK
        if attr in ('remove', 'reverse', 'rotate'):
            self.weaken(st, o, attr != 'remove')
            return NONE
        if attr == 'sort':
            key = kwargs.get('key')
            if key is not None:
                self.maybe_call(key, [c.elems()], st, node)
            else:
                self.ordered(st, node, c.elems())
            self.weaken(st, o, True)
            if key is None and ('reverse' not in kwargs or kwargs['reverse'] == FALSE):
                if not o.rec:
                    st.must[o] = st.must.get(o, frozenset()) | {'S'}
            return NONE
        if attr == 'clear':
            if o.root == 'A' and not o.rec:
                st.store[o] = I.Cont(ex=())
            return NONE
        if attr in ('index', 'count'):
            return NAT
        if attr == 'copy':
            v = self.fresh(st, node, o.kind, e=c.elems(), ex=c.ex, sub='copy', ln=c.length())
            if 'S' in st.must.get(o, ()):
                for x in v.o:
                    st.must[x] = frozenset(['S'])
            return v
        return UNK

    m_deque = m_list

    def m_bytearray(self, o, attr, args, kwargs, st, node):
        if attr in LIST_MUT:
            self.mutate(st, o, node, '.%s()' % attr)
            return mkint(0, 255) if attr == 'pop' else NONE
        if attr in ('find', 'index', 'count', 'rfind'):
            return INT
        if attr == 'copy':
            return self.fresh(st, node, 'bytearray', e=mkint(0, 255), sub='copy')
        return UNK

    def m_tuple(self, o, attr, args, kwargs, st, node):
        return NAT if attr in ('index', 'count') else UNK

    def m_range(self, o, attr, args, kwargs, st, node):
        return NAT

    def view(self, st, node, o, mode):
        c = self.cont(st, o)
        if mode == 'keys':
            e = c.k
        elif mode == 'values':
            e = c.elems()
        else:
            e = self.tuple_elem(st, node, [c.k, c.elems()], 'viewitem')
        return self.fresh(st, node, 'view', e=e, sub=mode, a={'src': vobj(o), 'mode': vstr(mode)})

    def view_cont(self, st, o, c):
        src = c.a.get('src')
        mode = c.a.get('mode')
        if src is None or mode is None or mode.s in (None, True) or len(mode.s) != 1:
            return c
        mode = next(iter(mode.s))
        k, v = BOT, BOT
        ln = None
        for s in src.o:
            d = self.I.cont(st, s)
            k, v = join(k, d.k), join(v, d.elems())
            dl = (0, None) if s.kind != 'dict' else d.length()
            ln = dl if ln is None else I.lnjoin(ln, dl)
        if src.u:
            ln = None
        if mode == 'keys':
            return I.Cont(None, k, BOT, c.a, False, ln)
        if mode == 'values':
            return I.Cont(None, v, BOT, c.a, False, ln)
        for t in c.e.o:
            if t.kind == 'tuple' and t.root == 'A':
                old = st.store.get(t)
                nc = I.Cont(ex=(k, v))
                if old is not None:
                    nc = I.cjoin(old, nc)
                if old is None or nc != old:
                    st.store[t] = nc
        return I.Cont(c.ex, c.e, c.k, c.a, False, ln)

    def m_dict(self, o, attr, args, kwargs, st, node):
        c = self.cont(st, o)
        a0 = args[0] if args else UNK
        if attr in DICT_MUT:
            self.mutate(st, o, node, '.%s()' % attr)
        if attr in ('keys', 'values', 'items'):
            return self.view(st, node, o, attr)
        if attr == 'get':
            d = args[1] if len(args) > 1 else NONE
            self.I.hook('dictread', node, st=st, obj=o, idx=a0)
            return join(c.elems(), d).with_(sym=None)
        if attr == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            self.add_elem(st, o, d, key=a0, n=(1, 1))
            return join(c.elems(), d).with_(sym=None)
        if attr == 'pop':
            self.I.hook('dictpop', node, st=st, obj=o, idx=a0)
            if len(args) < 2 and c.length()[1] == 0:
                return self.fail('KeyError', st, node, 'pop() from an empty dictionary')
            self.weaken(st, o)
            return join(c.elems(), args[1]) if len(args) > 1 else (c.elems() if not c.elems().is_bot() else UNK)
        if attr == 'popitem' and c.length()[1] == 0:
            return self.fail('KeyError', st, node, 'popitem() of an empty dictionary')
        if attr == 'popitem':
            self.weaken(st, o)
            return self.tuple_elem(st, node, [c.k, c.elems()], 'popitem')
        if attr in ('update', 'subtract'):
            self.I.hook('dictupdate', node, st=st, obj=o, val=a0)
            if any(x.kind == 'dict' for x in a0.o):
                self.add_elem(st, o, self.values(st, a0), key=self.keys(st, a0), n=self.len_of(st, a0))
            elif args:
                e = self.elems(st, a0, node)
                k, v = BOT, BOT
                for x in e.o:
                    cx = self.cont(st, x) if x.kind == 'tuple' else None
                    if cx is not None and cx.ex is not None and len(cx.ex) == 2:
                        k, v = join(k, cx.ex[0]), join(v, cx.ex[1])
                    else:
                        k, v = UNK, UNK
                if e.u or k.is_bot():
                    k, v = UNK, UNK
                self.add_elem(st, o, v, key=k)
            return NONE
        if attr == 'clear':
            self.I.hook('dictclear', node, st=st, obj=o)
            if o.root == 'A' and not o.rec:
                st.store[o] = I.Cont(a=c.a, ln=(0, 0))
            return NONE
        if attr == 'copy':
            return self.fresh(st, node, 'dict', e=c.elems(), k=c.k, sub='copy', a=dict(c.a), ln=c.length())
        if attr == 'most_common':
            t = self.tuple_elem(st, node, [c.k, c.elems()], 'mc')
            return self.fresh(st, node, 'list', e=t, sub='mcl')
        if attr == 'elements':
            return self.fresh(st, node, 'iter', e=c.k, sub='elements')
        if attr == 'fromkeys':
            return self.fresh(st, node, 'dict', e=args[1] if len(args) > 1 else NONE, k=self.elems(st, a0, node), sub='fromkeys')
        return UNK

    def m_set(self, o, attr, args, kwargs, st, node):
        c = self.cont(st, o)
        a0 = args[0] if args else UNK
        if attr in SET_MUT:
            self.mutate(st, o, node, '.%s()' % attr)
        if attr == 'add':
            self.add_elem(st, o, a0, n=(1, 1))
            return NONE
        if attr == 'update':
            for a in args:
                n = self.len_of(st, a)
                self.add_elem(st, o, self.elems(st, a, node), n=n)
            return NONE
        if attr in ('discard', 'difference_update', 'intersection_update') or attr == 'remove' and c.length()[1] != 0:
            self.weaken(st, o)
            return NONE
        if attr == 'symmetric_difference_update':
            self.add_elem(st, o, self.elems(st, a0, node))
            self.weaken(st, o)
            return NONE
        if attr in ('pop', 'remove') and c.length()[1] == 0:
            return self.fail('KeyError', st, node, '%s() from an empty set' % attr)
        if attr == 'pop':
            self.weaken(st, o)
            e = c.elems()
            return e if not e.is_bot() else UNK
        if attr == 'clear':
            if o.root == 'A' and not o.rec:
                st.store[o] = I.Cont(ex=())
            return NONE
        if attr in ('union', 'symmetric_difference'):
            e = c.elems()
            for a in args:
                e = join(e, self.elems(st, a, node))
            return self.fresh(st, node, 'set', e=e, sub=attr)
        if attr in ('intersection', 'difference', 'copy'):
            lo, hi = c.length()
            return self.fresh(st, node, 'set', e=c.elems(), sub=attr, ln=(lo if attr == 'copy' and c.ex is None else 0, hi))
        if attr in ('issubset', 'issuperset', 'isdisjoint'):
            return BOOL
        return UNK

    m_frozenset = m_set

    def m_view(self, o, attr, args, kwargs, st, node):
        return UNK

    def m_gen(self, o, attr, args, kwargs, st, node):
        if attr in ('__next__', 'next', 'send'):
            return self.cont(st, o).elems()
        return NONE

    m_iter = m_gen

    # ------------------------------------------------------------------ standard library
    def call_ext(self, mod, attr, args, kwargs, st, node, star=False):
        self.effect(node, 'ext', mod, attr)
        self.I.hook('ext', node, st=st, mod=mod, attr=attr, args=args, kwargs=kwargs)
        if star is False:
            self.std_arity(node, mod, attr, args, kwargs)
        a0 = args[0] if args else None
        orc = self.I.ext_oracles.get((mod, attr))
        if orc is not None:
            v = orc(self, dict(enumerate(args)), st, node)
            if v is not None:
                return v
        if mod == 'random':
            if attr in ('randint', 'randrange', 'getrandbits'):
                if attr == 'randint' and len(args) == 2 and args[0].intlike() and args[1].intlike():
                    return mkint(args[0].ivl()[0], args[1].ivl()[1])
                return INT
            if attr in ('random', 'uniform', 'gauss', 'expovariate', 'normalvariate'):
                return Val(f=(0.0, 1.0)) if attr == 'random' else FLOAT
            if attr == 'shuffle':
                for o in (a0.o if a0 is not None else ()):
                    self.mutate(st, o, node, 'random.shuffle')
                    self.weaken(st, o)
                return NONE
            if attr == 'choice' and self.surely_empty(st, a0):
                return self.fail('IndexError', st, node, 'random.choice() of an empty list')
            if attr == 'choice':
                e = self.elems(st, a0, node)
                return e if not e.is_bot() else UNK
            if attr in ('sample', 'choices'):
                return self.fresh(st, node, 'list', e=self.elems(st, a0, node), sub='sample')
            return UNK
        if mod == 'heapq':
            if attr in ('heappush', 'heappop', 'heapify', 'heappushpop', 'heapreplace'):
                r = BOT
                if attr in ('heappop', 'heapreplace') and self.surely_empty(st, a0):
                    return self.fail('IndexError', st, node, 'heapq.%s() of an empty list' % attr)
                for o in (a0.o if a0 is not None else ()):
                    heap = attr == 'heapify' or bool(st.must.get(o, frozenset()) & {'S', 'H'})
                    self.I.hook('heap', node, st=st, obj=o, heap=heap, how=attr)
                    self.mutate(st, o, node, 'heapq.%s' % attr)
                    if heap and o.kind == 'list' and not o.rec:
                        st.must[o] = st.must.get(o, frozenset()) | {'H'}
                    if o.kind == 'list':
                        r = join(r, self.cont(st, o).elems())
                        self.ordered(st, node, args[1] if len(args) > 1 else r)
                        if attr in ('heappush', 'heappushpop', 'heapreplace') and len(args) > 1:
                            self.add_elem(st, o, args[1])
                        else:
                            self.weaken(st, o)
                    else:
                        r = join(r, self.cont(st, o).elems() if o.kind == 'rgn' else UNK)
                if attr in ('heappush', 'heapify'):
                    return NONE
                return r if not r.is_bot() else UNK
            if attr in ('nlargest', 'nsmallest'):
                return self.fresh(st, node, 'list', e=self.elems(st, args[1], node) if len(args) > 1 else UNK, sub='n')
            if attr == 'merge':
                return self.fresh(st, node, 'iter', e=joins([self.elems(st, a, node) for a in args]), sub='merge')
            return UNK
        if mod == 'bisect':
            if attr.startswith('insort'):
                for o in (a0.o if a0 is not None else ()):
                    keep = 'S' in st.must.get(o, ())
                    self.mutate(st, o, node, 'bisect.%s' % attr)
                    if o.kind == 'list':
                        self.add_elem(st, o, args[1] if len(args) > 1 else UNK)
                    if keep:
                        st.must[o] = st.must.get(o, frozenset()) | {'S'}
                return NONE
            if a0 is not None and a0.only_objs() and len(a0.o) == 1 and len(args) == 2 and args[1].only_int() and self.I.peel:
                o = next(iter(a0.o))
                t = self.table(st, o)
                lo, hi = args[1].i[:2]
                if t is not None:
                    import bisect
                    f = bisect.bisect_left if attr == 'bisect_left' else bisect.bisect_right
                    return mkint(0 if lo is None else f(t, lo), len(t) if hi is None else f(t, hi))
                if o.kind in ('list', 'tuple'):
                    c = self.cont(st, o)
                    n = c.length()
                    es = c.ex if c.ex is not None else (c.elems(),)
                    if all(x.only_int() for x in es):
                        left = attr == 'bisect_left'
                        # elements certainly to the left, and elements possibly to the left, of the point
                        sure = [x.i[1] is not None and lo is not None and (x.i[1] < lo or not left and x.i[1] == lo) for x in es]
                        may = [x.i[0] is None or hi is None or x.i[0] < hi or not left and x.i[0] == hi for x in es]
                        if c.ex is not None:
                            return mkint(sum(sure), sum(may))
                        return mkint(n[0] if sure[0] else 0, n[1] if may[0] else 0)
                    return mkint(0, n[1])
            return NAT
        if mod == 'copy':
            if attr in ('copy', 'deepcopy') and a0 is not None:
                return self.copy_of(st, node, a0, attr == 'deepcopy', 0)
            return UNK
        if mod == 'itertools' or mod.startswith('itertools.'):
            return self.itertools_call(mod, attr, args, kwargs, st, node, star)
        if mod == 'collections':
            if attr == 'defaultdict':
                a = {'factory': a0 if a0 is not None else NONE}
                v = BOT
                k = BOT
                if len(args) > 1:
                    v, k = self.values(st, args[1]), self.keys(st, args[1])
                return self.fresh(st, node, 'dict', e=v, k=k, a=a, sub='ddict', ln=(0, 0) if len(args) < 2 and not kwargs else None)
            if attr == 'Counter':
                e = self.elems(st, a0, node) if a0 is not None else BOT
                return self.fresh(st, node, 'dict', e=NAT, k=e, sub='counter')
            if attr == 'deque':
                e = self.elems(st, a0, node) if a0 is not None else BOT
                ex = None
                if a0 is not None and len(a0.o) == 1 and not a0.u:
                    o = next(iter(a0.o))
                    if o.kind in ('list', 'tuple'):
                        ex = self.cont(st, o).ex
                return self.fresh(st, node, 'deque', e=e, ex=() if a0 is None else ex, sub='deque', ln=self.len_of(st, a0) if a0 is not None and len(args) == 1 and not kwargs else None)
            if attr == 'OrderedDict':
                return self._builtin('dict', args, kwargs, st, node, star)
            return UNK
        if mod in ('math', 'cmath', 'statistics', 'numpy'):
            if attr not in INT_FN | {'floor', 'ceil', 'trunc', 'prod'} and any(self.big(x) for x in args):
                self.effect(node, 'float', '%s.%s of an integer' % (mod, attr), self.frame.fn.fq, getattr(node, 'lineno', None))
        if mod == 'math':
            if attr in INT_FN:
                if attr in ('floor', 'ceil', 'trunc') and a0 is not None:
                    return self._builtin('int', [a0], {}, st, node, False)
                return NAT
            if attr in ('isfinite', 'isnan', 'isinf', 'isclose'):
                return BOOL
            if attr in ('sqrt', 'exp', 'fabs'):
                return Val(f=(0.0, None))
            return FLOAT
        if mod == 'functools':
            if attr == 'reduce' and len(args) == 2 and self.surely_empty(st, args[1]):
                return self.fail('TypeError', st, node, 'reduce() of an empty collection')
            if attr == 'reduce' and len(args) >= 2:
                e = self.elems(st, args[1], node)
                acc = args[2] if len(args) > 2 else e
                v = self.maybe_call(a0, [join(acc, UNK if False else acc), e], st, node)
                return join(acc, v)
            if attr == 'wraps':
                return UNK
            return UNK
        if mod == 'fractions':
            return UNK
        if mod == 'operator':
            return UNK
        if mod == 'time':
            return FLOAT
        return UNK

    def copy_of(self, st, node, v, deep, depth):
        r = v.with_(o=frozenset())
        for o in sorted(v.o, key=lambda x: (x.kind, str(x.key), x.rec)):
            if o.kind in CONTAINER - {'gen', 'iter'} and not (o.kind == 'tuple' and not deep):
                c = self.cont(st, o)
                if deep and depth < 4:
                    e = self.copy_of(st, node, c.elems(), True, depth + 1) if not c.elems().is_bot() else BOT
                    k = c.k
                    no = self.alloc(st, node, o.kind, I.Cont(e=e, k=k), data=o.data, sub=('copy', depth, o.kind))
                elif deep:
                    no = self.alloc(st, node, o.kind, I.Cont(e=UNK, k=UNK), data=o.data, sub=('copy', depth, o.kind))
                else:
                    no = self.alloc(st, node, o.kind, I.Cont(c.ex, c.e, c.k, dict(c.a), c.ne, c.ln), data=o.data, sub=('copy', depth, o.kind))
                r = join(r, vobj(no))
            elif o.kind == 'inst':
                m = self.proj.find_method(o.data, '__deepcopy__' if deep else '__copy__') if isinstance(o.data, ClassInfo) else None
                a = {}
                fields = set(self.cont(st, o).a)
                if isinstance(o.data, ClassInfo):
                    fields |= set(self.I.class_fields(o.data))
                for f in sorted(fields):
                    fv = self.I.attr_of(st, o, f)
                    if fv is None:
                        continue
                    if deep:
                        fv = self.copy_of(st, node, fv, True, depth + 1) if depth < 3 else UNK
                    a[f] = fv
                no = self.alloc(st, node, 'inst', I.Cont(a=a), data=o.data, sub=('copy', depth))
                r = join(r, vobj(no))
            elif o.kind == 'rgn':
                if deep:
                    r = join(r, UNK)
                else:
                    r = join(r, vobj(self.alloc(st, node, 'list', I.Cont(e=self.cont(st, o).elems()), sub=('copy', depth, 'rgn'))).with_(u=True))
            else:
                r = join(r, vobj(o))
        return r

    def itertools_call(self, mod, attr, args, kwargs, st, node, star):
        el = [self.elems(st, a, node) if (a.o or a.u or a.s is not None) else a for a in args]
        if star is not False:
            el = el + [self.elems(st, star, node)]
        if attr in ('combinations', 'permutations', 'combinations_with_replacement'):
            t = self.fresh(st, node, 'tuple', e=el[0] if el else UNK, sub='itup')
            if attr == 'combinations' or attr == 'permutations':
                try:
                    r = args[1].const()
                    if isinstance(r, int) and 0 < r <= 6:
                        t = self.tuple_elem(st, node, [el[0]] * r, 'itup')
                except (KeyError, IndexError):
                    pass
            return self.fresh(st, node, 'iter', e=t, sub=attr)
        if attr == 'product':
            if 'repeat' in kwargs or star is not False:
                t = self.fresh(st, node, 'tuple', e=joins(el), sub='itup')
            else:
                t = self.tuple_elem(st, node, el, 'itup')
            return self.fresh(st, node, 'iter', e=t, sub=attr)
        if attr == 'zip_longest':
            fill = kwargs.get('fillvalue', NONE)
            t = self.tuple_elem(st, node, [join(e, fill) for e in el], 'itup')
            return self.fresh(st, node, 'iter', e=t, sub=attr)
        if attr in ('chain',):
            return self.fresh(st, node, 'iter', e=joins(el), sub=attr)
        if attr == 'from_iterable':
            e = BOT
            if el:
                e = self.elems(st, el[0], node)
            return self.fresh(st, node, 'iter', e=e if not e.is_bot() else UNK, sub=attr)
        if attr in ('cycle', 'islice', 'accumulate', 'repeat', 'tee'):
            return self.fresh(st, node, 'iter', e=el[0] if el else UNK, sub=attr)
        if attr in ('takewhile', 'dropwhile', 'filterfalse'):
            if args and len(el) > 1:
                self.maybe_call(args[0], [el[1]], st, node)
                return self.fresh(st, node, 'iter', e=el[1], sub=attr)
        if attr == 'starmap' and args and len(el) > 1:
            self.maybe_call(args[0], [], st, node)
            return self.fresh(st, node, 'iter', e=UNK, sub=attr)
        if attr == 'count':
            s = args[0].ints() if args else (0, 0, 0)
            step = args[1].ints() if len(args) > 1 else (1, 1, 1)
            lo = s[0] if s is not None and step is not None and step[0] is not None and step[0] >= 0 else None
            par = None
            if s is not None and step is not None and step[2] == 0:
                par = s[2]
            return self.fresh(st, node, 'iter', e=mkint(lo, None, par), sub=attr)
        if attr == 'groupby':
            return self.fresh(st, node, 'iter', e=UNK, sub=attr)
        return self.fresh(st, node, 'iter', e=UNK, sub=attr)
