class Base(object):
    pass


class Derived(Base):
    pass


class Other(object):
    pass


def ok_int(n):
    """The number of halves.  Input: n: int"""
    if n < 0:
        return 0
    return n // 2


def ok_pair(n):
    total = 0
    seen = []
    for i in range(10):
        seen.append(i)
        total += i
    return total, seen


def ok_option(n, flag=True):
    if flag:
        return [1, 2]
    return {1: 2}


def ok_gen(n):
    for i in range(10):
        yield i, i + 1


def ok_sentinel(n):
    best = None
    for i in range(3, 10):
        if best is None or i > best:
            best = i
    return best


def ok_none(n):
    for i in range(10):
        if i * i > 20:
            return i
    return None


def gather(n):
    out = []
    for i in range(10):
        out.append(i * i)
    return out


def ok_helper(n):
    return sorted(gather(n))


def ok_sub(n):
    return Derived()


def bad_float(n):
    total = 0
    for i in range(1, 10):
        total += i
    return total / 2


def bad_float_element(n):
    return [i * 0.5 for i in range(10)]


def bad_generator(n):
    return (i for i in range(10))


def bad_filter(n):
    return filter(None, range(10))


def bad_set(n):
    return set(range(10))


def bad_swapped(n):
    return [1, 2, 3], 3


def bad_arity(n):
    return 1, 2, 3


def bad_fall(n):
    for i in range(10):
        if i * i == 16:
            return [i]


def bad_bare(n):
    out = gather(n)
    if len(out) > 3:
        return
    return out


def bad_yield(n):
    for i in range(10):
        yield i


def bad_turned_generator(n):
    for i in range(10):
        yield i


def bad_class(n):
    return Other()


def bad_always(n):
    raise ValueError("bad_always: nothing to return")


def bad_option(n, flag=False):
    if flag:
        return {1: 2}
    return [1, 2]


def bad_value(n):
    return {i: str(i) for i in range(10)}


def bad_bool(n):
    if ok_int(n):
        return False
    return 3


def bad_late(n):
    total = ok_int(n)
    while total > 10:
        total = total - 3
        if total == 12:
            return str(total)
    return total


def ok_own(s, n):
    path = [s]
    for i in range(5):
        path.append(s)
    return path


def bad_own(s, n):
    if n == 3:
        return s
    return [s]


def bad_label(s, n):
    return 0, [n, n + 1]
