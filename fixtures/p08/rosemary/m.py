def check(n):
    if n < 1:
        raise ValueError('n')


def good_direct(n):
    if n <= 0:
        raise ValueError('n')
    return n * 2


def good_helper(n):
    check(n)
    return [0] * n


def good_otherwise(n):
    if n >= 1:
        return n
    raise ValueError('n')


def good_membership(n):
    if n in (0, -1):
        raise ValueError('n')
    elif n < 0:
        raise ValueError('n')
    for i in range(n):
        yield i


def bad_off_by_one(n):
    if n < 0:
        raise ValueError('n')
    return n


def bad_only_some(n):
    if n == 0:
        raise ValueError('n')
    return n


def bad_exception(n):
    if n < 1:
        raise KeyError('n')
    return n


def bad_too_strict(n):
    if n <= 1:
        raise ValueError('n')
    return n


def bad_late(n):
    yield 0
    check(n)
