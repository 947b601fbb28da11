import random
from itertools import count

_CACHE = {}
_TABLE = [2, 3]
_LAST = None
_IDS = count(1)


def cached_function(func):
    cache = {}

    def wrap(*args):
        if args[0] not in cache:
            cache[args[0]] = func(*args)
        return cache[args[0]]
    return wrap


def bad_cache(n):
    if n not in _CACHE:
        _CACHE[n] = n * n
    return _CACHE[n]


def _remember(n):
    _TABLE.append(n)


def bad_helper(n):
    _remember(n)
    return len(_TABLE)


def bad_default(n, seen=[]):
    seen.append(n)
    return len(seen)


def bad_attr(n):
    bad_attr.calls = n
    return n


def bad_global(n):
    global _LAST
    _LAST = n
    return n


def bad_iter(n):
    return next(_IDS) + n


class Box(object):
    count = 0
    items = []

    def bad_count(self, n):
        Box.count += n
        return n

    def bad_list(self, n):
        self.items.append(n)
        return n


@cached_function
def bad_memo(n):
    return [n]


@cached_function
def bad_rand(n):
    return random.randint(0, n)


@cached_function
def ok_memo(n):
    return n * n


def ok_local(n):
    cache = {}

    def go(k):
        if k not in cache:
            cache[k] = 1 if k < 2 else go(k - 1) + go(k - 2)
        return cache[k]
    return go(n)
