"""Comparison of an abstract value with the answer a specification gives."""
from .absval import *
from .interp import EMPTY
from .tables.boundary import ANY_, INT_, SIZE

NO, MAYBE, YES = 0, 1, 2


def container(run, st, o):
    c = st.store.get(o) if st is not None else None
    if c is None:
        try:
            c = run.cont(st, o)
        except Exception:
            c = None
    return c


def compare(run, st, v, want, depth=0):
    """NO: no concrete value of v equals want; YES: every concrete value equals want"""
    if v.is_bot():
        return NO
    if isinstance(want, ANY_):
        return YES
    if isinstance(want, INT_):
        return in_interval(v, want)
    if isinstance(want, SIZE):
        return of_size(run, st, v, want)
    if v.u or v.ub or depth > 6:
        return MAYBE
    got = []
    if v.n:
        got.append(YES if want is None else NO)
    if v.b:
        if isinstance(want, bool):
            got.append(YES if v.b == (2 if want else 1) else MAYBE if v.b == 3 else NO)
        else:
            got.append(NO)
    if v.i is not None:
        if isinstance(want, bool) or not isinstance(want, int):
            got.append(MAYBE if isinstance(want, float) else NO)
        else:
            lo, hi, par = v.i
            if (lo is not None and want < lo) or (hi is not None and want > hi) or (par is not None and want & 1 != par):
                got.append(NO)
            else:
                got.append(YES if lo == hi and lo is not None else MAYBE)
    if v.f is not None:
        if isinstance(want, (int, float)) and not isinstance(want, bool):
            lo, hi = v.f
            if (lo is not None and want < lo) or (hi is not None and want > hi):
                got.append(NO)
            else:
                got.append(YES if lo == hi and lo is not None and isinstance(want, float) else MAYBE if isinstance(want, float) else NO)
        else:
            got.append(NO)
    if v.s is not None:
        if not isinstance(want, str):
            got.append(NO)
        elif v.s is True:
            got.append(MAYBE)
        else:
            got.append((YES if len(v.s) == 1 else MAYBE) if want in v.s else NO)
    for o in v.o:
        got.append(compare_obj(run, st, o, want, depth))
    return YES if all(g == YES for g in got) else NO if all(g == NO for g in got) else MAYBE


def in_interval(v, want):
    if v.u or v.ub:
        return MAYBE
    got = [NO] if v.n or v.b or v.s is not None or v.o or v.f is not None else []
    if v.i is not None:
        lo, hi, _ = v.i
        if (want.lo is not None and hi is not None and hi < want.lo) or (want.hi is not None and lo is not None and lo > want.hi):
            got.append(NO)
        elif (want.lo is None or (lo is not None and lo >= want.lo)) and (want.hi is None or (hi is not None and hi <= want.hi)):
            got.append(YES)
        else:
            got.append(MAYBE)
    return YES if all(g == YES for g in got) else NO if all(g == NO for g in got) else MAYBE


def of_size(run, st, v, want):
    if v.u or v.ub:
        return MAYBE
    got = [NO] if v.n or v.b or v.s is not None or v.i is not None or v.f is not None else []
    for o in v.o:
        if o.kind == 'rgn':
            got.append(MAYBE)
        elif o.kind != want.kind:
            got.append(NO)
        else:
            c = container(run, st, o)
            if c is None:
                got.append(MAYBE)
                continue
            lo, hi = length(o, c)
            if (want.hi is not None and lo > want.hi) or (hi is not None and hi < want.lo):
                got.append(NO)
            elif lo >= want.lo and (want.hi is None or (hi is not None and hi <= want.hi)):
                got.append(YES)
            else:
                got.append(MAYBE)
    return YES if all(g == YES for g in got) else NO if all(g == NO for g in got) else MAYBE


def length(o, c):
    lo, hi = c.length()
    if o.kind in ('set', 'frozenset') and lo > 1:
        try:
            if c.ex is None or len({x.const() for x in c.ex}) != lo:
                lo = 1
        except KeyError:
            lo = 1
    return lo, hi


def show(run, st, v, depth=0):
    """the abstract value with the contents of its containers"""
    parts = []
    w = v.but(o=frozenset()) if hasattr(v, 'but') else v
    if not v.o:
        return str(v)
    for o in sorted(v.o, key=str):
        c = container(run, st, o) if o.kind in KIND and depth < 4 else None
        if c is None:
            parts.append(o.kind)
        elif c.ex is not None:
            parts.append('%s[%s]' % (o.kind, ', '.join(show(run, st, x, depth + 1) for x in c.ex)))
        else:
            lo, hi = c.length()
            parts.append('%s of %s..%s (%s)' % (o.kind, lo, 'oo' if hi is None else hi, show(run, st, c.elems(), depth + 1)))
    return ' or '.join(parts + ([str(w)] if w is not v and not w.is_bot() else []))


KIND = {'list': list, 'tuple': tuple, 'set': set, 'dict': dict, 'frozenset': frozenset}


def compare_obj(run, st, o, want, depth):
    if o.kind not in KIND:
        if o.kind in ('rgn',) or want is None and o.kind == 'inst':
            return MAYBE if o.kind == 'rgn' else NO
        return MAYBE if not isinstance(want, (int, float, str, bool, type(None), list, tuple, set, dict)) else NO
    if type(want) is not KIND[o.kind]:
        return NO
    c = container(run, st, o)
    if c is None:
        return MAYBE
    lo, hi = length(o, c)
    n = len(want)
    if o.kind in ('list', 'tuple'):
        if n < lo or (hi is not None and n > hi):
            return NO
        if c.ex is not None:
            r = [compare(run, st, x, w, depth + 1) for x, w in zip(c.ex, want)]
            return NO if any(x == NO for x in r) else YES if all(x == YES for x in r) else MAYBE
        if n == 0:
            return YES if hi == 0 or c.elems().is_bot() else NO if lo > 0 else MAYBE
        r = [compare(run, st, c.elems(), w, depth + 1) for w in want]
        if any(x == NO for x in r):
            return NO
        return YES if all(x == YES for x in r) and lo == hi == n else MAYBE
    if o.kind == 'dict':
        if n == 0:
            return YES if hi == 0 or (c.k.is_bot() and c.ex in (None, ())) else NO if lo > 0 else MAYBE
        if hi is not None and hi == 0:
            return NO
        if any(compare(run, st, c.k, k, depth + 1) == NO for k in want) or any(compare(run, st, c.elems(), w, depth + 1) == NO for w in want.values()):
            return NO
        return MAYBE
    e = c.elems()
    if c.ex is not None and c.ex and len(c.ex) == len({str(x) for x in c.ex}):
        r = [max(compare(run, st, x, w, depth + 1) for w in want) if want else NO for x in c.ex]
        if any(x == NO for x in r):
            return NO
        if len(c.ex) == n and all(x == YES for x in r):
            return YES
    if n == 0:
        return YES if hi == 0 or e.is_bot() else NO if lo > 0 else MAYBE
    if hi is not None and hi < n:
        return NO
    if any(compare(run, st, e, w, depth + 1) == NO for w in want):
        return NO
    return MAYBE
