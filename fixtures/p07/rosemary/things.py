import itertools
from heapq import heappush
from itertools import count
from math import gcd


def _two(a, b):
    return a + b


def bad_arity(n):
    return _two(n)


def bad_builtin_arity(n):
    return gcd(n, n) + abs(n, n)


def bad_module_attr(n):
    return itertools.izip([n], [n])


def bad_name(n):
    if n > 3:
        return undefined_thing(n)
    return n


def bad_unbound(weight_map):
    best = None
    for k in weight_map:
        best = k
        last = k
    return best, last


def bad_none(n=None, factorization=None):
    if factorization is None:
        factorization = [(n, 1)]
    out = []
    for (p, e) in factorization:
        out.append(n // p)
    return out


def bad_operands(n):
    return [n] + n


def bad_iter(n):
    return sum(x for x in n)


class Box(object):
    def __init__(self, n):
        self.n = n

    def bad_attr(self):
        return self.m

    def bad_method(self):
        return self.total(1)

    def ok_attr(self):
        return self.n


def ok_default(n=None, factorization=None):
    if factorization is None:
        factorization = [(n, 1)]
    return [p**e for (p, e) in factorization]


def ok_bound(weight_map):
    last = None
    for k in weight_map:
        last = k
    return last


def ok_caught(n):
    try:
        return n.bit_count_of()
    except AttributeError:
        return 0


def ok_correlated(n):
    if n > 3:
        x = 1
    if n > 5:
        return x
    return 0


def ok_flag(moduli):
    found = False
    for x in moduli:
        if x > 3:
            found = True
            y = x
            break
    if found:
        return y
    return 0


def ok_sentinel(moduli):
    best = None
    for i, x in enumerate(moduli):
        if best is None or x > best:
            best = x
            where = i
    if best is not None:
        return where
    return -1


def ok_endless(n):
    for i in itertools.count(1):
        if i*i > n:
            root = i - 1
            break
    return root


def bad_empty(moduli):
    for x in moduli:
        last = x
    return last


def bad_search(moduli):
    for i, x in enumerate(moduli):
        if x > 3:
            where = i
            break
    return where


def bad_branch(moduli):
    for x in moduli:
        if x > 3:
            y = x
        elif x < 0:
            y = -x
        return y
    return 0


def bad_heap(weight_map, n):
    heap = []
    for u in weight_map:
        heappush(heap, (weight_map[u], {u: n}))
    return [w for w, _ in heap]


def good_heap(weight_map, n):
    heap = []
    order = count()
    for u in weight_map:
        heappush(heap, (weight_map[u], next(order), {u: n}))
    return [w for w, _, _ in heap]


def bad_sort(weight_map):
    boxes = [(weight_map[u], Box(u)) for u in weight_map]
    boxes.sort()
    return boxes


def good_sort(weight_map):
    boxes = [(weight_map[u], Box(u)) for u in weight_map]
    boxes.sort(key=lambda pair: pair[0])
    return boxes
