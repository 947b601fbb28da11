"""Abstract values: scalars with intervals/parity, plus sets of abstract objects."""

ANY_INT = (None, None, None)


class Obj(object):
    """abstract object.  kind: list dict set tuple deque gen iter view range bytearray inst func class lib ext
    extattr builtin bmeth pmeth rgn ; key identifies it; data = class / function / name"""
    __slots__ = ('kind', 'key', 'data', 'rec', '_h')
    _intern = {}

    def __new__(cls, kind, key, data=None, rec=0):
        k = (kind, key, rec, data)
        o = cls._intern.get(k)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.key, o.data, o.rec = kind, key, data, rec
            o._h = hash(k)
            cls._intern[k] = o
        return o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '<%s %r%s>' % (self.kind, self.key, ('', ' old', ' batch', ' past')[self.rec])

    @property
    def root(self):
        return self.key[0] if isinstance(self.key, tuple) else None

    def old(self):
        return Obj(self.kind, self.key, self.data, 1)

    def past(self):
        return Obj(self.kind, self.key, self.data, 3)


MUTABLE = frozenset(['list', 'dict', 'set', 'deque', 'bytearray', 'inst', 'view', 'rgn', 'iter', 'gen'])
CONTAINER = frozenset(['list', 'dict', 'set', 'tuple', 'deque', 'gen', 'iter', 'view', 'range', 'bytearray', 'frozenset'])
CALLABLE = frozenset(['func', 'class', 'builtin', 'extattr', 'bmeth', 'pmeth'])


class Val(object):
    __slots__ = ('n', 'b', 'i', 'f', 's', 'o', 'u', 't', 'sym', 'ub', '_h')

    def __init__(self, n=False, b=0, i=None, f=None, s=None, o=frozenset(), u=False, t=frozenset(), sym=None, ub=0):
        self.n, self.b, self.i, self.f, self.s, self.o, self.u, self.t, self.sym, self.ub = n, b, i, f, s, o, u, t, sym, ub
        self._h = None

    def _k(self):
        return (self.n, self.b, self.i, self.f, self.s, self.o, self.u, self.t, self.sym, self.ub)

    def __eq__(self, other):
        return self is other or (isinstance(other, Val) and self._k() == other._k())

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        if self._h is None:
            self._h = hash(self._k())
        return self._h

    def __repr__(self):
        p = []
        if self.n:
            p.append('None')
        if self.b:
            p.append({1: 'False', 2: 'True', 3: 'bool'}[self.b])
        if self.i is not None:
            lo, hi, par = self.i
            p.append('int[%s,%s%s]' % ('-inf' if lo is None else lo, 'inf' if hi is None else hi,
                                       '' if par is None else (' even' if par == 0 else ' odd')))
        if self.f is not None:
            p.append('float')
        if self.s is not None:
            p.append('str' if self.s is True else 'str%s' % sorted(self.s))
        for o in self.o:
            p.append(repr(o))
        if self.u:
            p.append('?')
        if self.t:
            p.append('#' + ','.join(sorted(map(str, self.t))))
        if self.ub:
            p.append('UB%d' % self.ub)
        return '|'.join(p) or 'BOT'

    # -- queries
    def is_bot(self):
        return not (self.n or self.b or self.i is not None or self.f is not None or self.s is not None or self.o or self.u)

    def only_int(self):
        return self.i is not None and not (self.n or self.b or self.f is not None or self.s is not None or self.o or self.u)

    def intlike(self):
        """int or bool only"""
        return (self.i is not None or self.b) and not (self.n or self.f is not None or self.s is not None or self.o or self.u)

    def only_objs(self):
        return bool(self.o) and not (self.u or self.n or self.b or self.i is not None or self.f is not None or self.s is not None)

    def only_none(self):
        return self.n and not (self.b or self.i is not None or self.f is not None or self.s is not None or self.o or self.u)

    def kinds(self):
        k = set()
        if self.n:
            k.add('None')
        if self.b:
            k.add('bool')
        if self.i is not None:
            k.add('int')
        if self.f is not None:
            k.add('float')
        if self.s is not None:
            k.add('str')
        if self.u:
            k.add('?')
        for o in self.o:
            k.add(o.kind if o.kind != 'inst' else 'inst:' + (o.data.name if hasattr(o.data, 'name') else str(o.data)))
        return k

    def const(self):
        """python constant if this is exactly one constant, else raises KeyError"""
        if self.n and self.only_none():
            return None
        if self.only_int() and self.i[0] is not None and self.i[0] == self.i[1]:
            return self.i[0]
        if self.b in (1, 2) and not (self.n or self.i is not None or self.f is not None or self.s is not None or self.o or self.u):
            return self.b == 2
        if self.s is not None and self.s is not True and len(self.s) == 1 and not (
                self.n or self.b or self.i is not None or self.f is not None or self.o or self.u):
            return next(iter(self.s))
        raise KeyError

    def with_(self, **kw):
        d = dict(n=self.n, b=self.b, i=self.i, f=self.f, s=self.s, o=self.o, u=self.u, t=self.t, sym=self.sym, ub=self.ub)
        d.update(kw)
        return Val(**d)

    def ints(self):
        """interval of all the integers it may be, the unknown ones included"""
        return ANY_INT if self.u or any(o.kind == 'rgn' for o in self.o) else self.ivl()

    def ivl(self):
        """interval covering int and bool parts"""
        i = self.i
        if self.b:
            bi = (0 if self.b & 1 else 1, 1 if self.b & 2 else 0, None)
            i = bi if i is None else ijoin(i, bi)
        return i


BOT = Val()
NONE = Val(n=True)
TRUE = Val(b=2)
FALSE = Val(b=1)
BOOL = Val(b=3)
INT = Val(i=ANY_INT)
NAT = Val(i=(0, None, None))
FLOAT = Val(f=(None, None))
STR = Val(s=True)
UNK = Val(u=True)
OPAQUE = Val(u=True, t=frozenset(['opaque']))        # a value of the caller's own: a vertex, a label, a key


def mkint(lo, hi, par=None):
    if lo is not None and hi is not None and lo > hi:
        return BOT
    if lo is not None and lo == hi:
        par = lo & 1
    elif par is not None:
        if lo is not None and (lo & 1) != par:
            lo += 1
        if hi is not None and (hi & 1) != par:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return BOT
    if lo is not None and abs(lo) > 1 << 200:
        lo = None if lo < 0 else (1 << 200)
    if hi is not None and abs(hi) > 1 << 200:
        hi = None if hi > 0 else -(1 << 200)
    return Val(i=(lo, hi, par))


def vobj(*objs):
    return Val(o=frozenset(objs))


def vstr(s):
    return Val(s=frozenset([s]))


def vconst(c):
    if c is None:
        return NONE
    if c is True:
        return TRUE
    if c is False:
        return FALSE
    if isinstance(c, int):
        return Val(i=(c, c, c & 1)) if abs(c) < 1 << 200 else mkint(1 << 199, None) if c > 0 else mkint(None, -(1 << 199))
    if isinstance(c, float):
        return Val(f=(c, c))
    if isinstance(c, str):
        return vstr(c)
    return UNK


def ijoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    par = a[2] if a[2] == b[2] else None
    return (lo, hi, par)


TH = [-1, 0, 1, 2, 3]


def iwiden(a, b):
    """a old, b new (b >= a)"""
    if a is None or b is None:
        return b
    lo, hi = b[0], b[1]
    if a[0] is not None and (lo is None or lo < a[0]):
        c = [t for t in TH if lo is not None and t <= lo]
        lo = max(c) if c else None
    if a[1] is not None and (hi is None or hi > a[1]):
        c = [t for t in TH if hi is not None and t >= hi]
        hi = min(c) if c else None
    return (lo, hi, b[2])


def fjoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return (lo, hi)


MUST_TAGS = frozenset(['alien', 'opaque'])        # alien: every concrete value is; opaque: every value of the unknown part is; dropped by arithmetic

ALIEN = frozenset(['alien'])


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a.is_bot():
        return b if a.ub <= b.ub else b.with_(ub=a.ub)
    if b.is_bot():
        return a if b.ub <= a.ub else a.with_(ub=b.ub)
    if a == b:
        return a
    s = a.s
    if s is None:
        s = b.s
    elif b.s is not None:
        if s is True or b.s is True or len(s | b.s) > 12:
            s = True
        else:
            s = s | b.s
    t = a.t | b.t
    if t & MUST_TAGS:
        if 'alien' in t and not ('alien' in a.t and 'alien' in b.t):
            t = t - ALIEN
        if 'opaque' in t and (a.u and 'opaque' not in a.t or b.u and 'opaque' not in b.t):
            t = t - OPAQUE.t
    return Val(a.n or b.n, a.b | b.b, ijoin(a.i, b.i), fjoin(a.f, b.f), s, a.o | b.o, a.u or b.u, t,
               a.sym if a.sym == b.sym else None, max(a.ub, b.ub))


def joins(vals):
    r = BOT
    for v in vals:
        r = join(r, v)
    return r


def widen(a, b):
    """a previous, b = join(a, new)"""
    if a is None or a == b:
        return b
    f = b.f
    if a.f is not None and f is not None and f != a.f:
        f = (f[0] if f[0] == a.f[0] else None, f[1] if f[1] == a.f[1] else None)
    return b.with_(i=iwiden(a.i, b.i) if b.i is not None else None, f=f)


# ---------------------------------------------------------------------------------------------------------
# interval arithmetic
def _add(x, y):
    return None if x is None or y is None else x + y


def i_add(a, b):
    par = (a[2] ^ b[2]) if a[2] is not None and b[2] is not None else None
    return mkint(_add(a[0], b[0]), _add(a[1], b[1]), par)


def i_neg(a):
    return (None if a[1] is None else -a[1], None if a[0] is None else -a[0], a[2])


def i_sub(a, b):
    return i_add(a, i_neg(b))


def i_mul(a, b):
    par = None
    if a[2] == 0 or b[2] == 0:
        par = 0
    elif a[2] == 1 and b[2] == 1:
        par = 1
    NI, PI = float('-inf'), float('inf')

    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y if not (isinstance(x, float) or isinstance(y, float)) else (PI if (x > 0) == (y > 0) else NI)
    al, ah = (NI if a[0] is None else a[0]), (PI if a[1] is None else a[1])
    bl, bh = (NI if b[0] is None else b[0]), (PI if b[1] is None else b[1])
    c = [m(x, y) for x in (al, ah) for y in (bl, bh)]
    lo, hi = min(c), max(c)
    return mkint(None if lo == NI else lo, None if hi == PI else hi, par)


def i_floordiv(a, b):
    if b[0] is not None and b[0] >= 1:
        # positive divisor
        lo = None if a[0] is None else (a[0] // b[0] if a[0] < 0 else (0 if b[1] is None else a[0] // b[1]))
        hi = None if a[1] is None else (a[1] // b[0] if a[1] >= 0 else (-1 if b[1] is None else a[1] // b[1]))
        return mkint(lo, hi)
    return mkint(None, None)


def i_mod(a, b):
    par = None
    if b[0] is not None and b[0] >= 1:
        if a[0] is not None and a[1] is not None and a[0] >= 0 and a[1] < b[0]:
            return Val(i=a)
        hi = None if b[1] is None else b[1] - 1
        if b[2] == 0 and a[2] is not None:
            par = a[2]
        if a[0] is not None and a[0] >= 0 and a[1] is not None:
            hi = a[1] if hi is None else min(hi, a[1])
        return mkint(0, hi, par)
    if b[1] is not None and b[1] <= -1:
        return mkint(None if b[0] is None else b[0] + 1, 0)
    return mkint(None, None)


def i_pow(a, b):
    """int ** nonneg int"""
    if a[0] is not None and a[0] >= 0:
        try:
            lo = a[0] ** (b[0] or 0) if (b[0] or 0) < 4096 and a[0] < 1 << 64 else 0
        except Exception:
            lo = 0
        if a[0] == 0:
            lo = 0
        hi = None
        if a[1] is not None and b[1] is not None and b[1] < 4096 and a[1] < 1 << 64:
            hi = max(1, a[1] ** b[1])
        par = None
        if a[2] is not None and b[0] is not None and b[0] >= 1:
            par = a[2]
        return mkint(lo, hi, par)
    if b[0] is not None and b[0] == b[1] and b[0] % 2 == 0:
        if b[0] == 2 and a[0] is not None and a[1] is not None:
            m = max(abs(a[0]), abs(a[1]))
            return mkint(0, m * m)
        return mkint(0, None)
    return mkint(None, None)
