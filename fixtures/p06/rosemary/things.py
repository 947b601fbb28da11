import os
import sys
import warnings
from sys import setrecursionlimit

sys.setrecursionlimit(10000)


def _log(n):
    print(n)
    return n


def ok_verbose(n, verbose=False):
    if verbose:
        print(n)
    return n


def ok_load(name):
    with open(name, 'r') as fh:
        return fh.read()


def bad_load(name):
    with open(name, 'r+') as fh:
        return fh.read()


def bad_print(n):
    return [_log(i) for i in range(n)]


def bad_stderr(n):
    sys.stderr.write(str(n))
    return n


def bad_warn(n):
    warnings.warn('slow')
    return n


def bad_open(n):
    with open('/tmp/cache', 'w') as fh:
        fh.write(str(n))
    return n


def bad_env(n):
    return os.environ.get('X', n)


def bad_limit(n):
    setrecursionlimit(n)
    return n


def bad_exit(n):
    if n < 0:
        sys.exit(1)
    return n


def bad_eval(n):
    return eval('n + 1')
