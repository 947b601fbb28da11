import math
from math import sqrt


def bad_sqrt(n):
    """
    Input:
        * n: int
    """
    return int(sqrt(n))


def bad_power(n):
    """
    Input:
        * n: int
    """
    return int(n**0.5)


def bad_div(a, b):
    """
    Input:
        * a: int
        * b: int
    """
    return int(a / b)


def _root(n):
    return int(round(n**(1.0/3)))


def bad_helper(n):
    """
    Input:
        * n: int
    """
    r = _root(n)
    return r


def bad_float(n):
    """
    Input:
        * n: int
    """
    return int(float(n))


def bad_const(n):
    """
    Input:
        * n: int
    """
    return int(n*0.5)


def bad_limit(n):
    """
    Input:
        * n: int
    """
    if n >= 2**53:
        return 0
    return sqrt(n) + sqrt(n*n)


def bad_loop(n):
    """
    Input:
        * n: int
    """
    s = 0
    for i in range(n):
        s += i
    return s / 2


def bad_math(n):
    """
    Input:
        * n: int
    """
    return math.ceil(math.log(n, 2))


def ok_small(n):
    """
    Input:
        * n: int
    """
    if 0 <= n < 1000000:
        return int(sqrt(n))
    return 0


def ok_exact(n):
    """
    Input:
        * n: int
    """
    r = n // 2
    while r*r > n:
        r = (r + n//r) // 2
    return r


def ok_density(n):
    """
    Input:
        * n: int
    """
    return n / 2


def ok_limit(n):
    """
    Input:
        * n: int
    """
    b = int(math.log(n)) + 1
    return [i for i in range(b)]


def ok_inf(n):
    """
    Input:
        * n: int
    """
    best = float('inf')
    if n < best:
        best = n
    return best
