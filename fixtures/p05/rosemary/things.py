import random
import time
from random import choice, Random

random.seed(1)


def _draw(n):
    return random.randint(0, n)


def _maybe(n, shuffle=False):
    if shuffle:
        return random.random()
    return n


def ok_random(n):
    return _draw(n)


def ok_disabled(n):
    return _maybe(n, shuffle=False)


def bad_direct(n):
    return choice([1, 2, n])


def bad_nested(n):
    return _draw(n) if n > 10 else n


def bad_gen(n):
    for i in range(n):
        yield random.random()


def bad_key(elements):
    return sorted(elements, key=lambda x: random.random())


def bad_seed(n):
    random.seed(n)
    return n


def bad_private(n):
    return Random(n)


def bad_clock(n):
    return time.time() + n


def bad_id(n):
    return id(n)
