from rosemary.graphs.graphs import Graph


def ok_low(n):
    return n > 1 and n % 2 == 1


def bad_low(n):
    return n < 2


def bad_empty(values):
    return values[0]


def ok_empty(values):
    return sum(values)


def bad_range(n):
    if n < 0:
        return n
    return -1


def bad_size(values):
    return values + values


def bad_none(n):
    if n > 1:
        return [1]


def ok_size(values):
    return [v for v in values if v]


def bad_first(graph):
    return graph.vertices()[0]


def bad_pair(n):
    total, edges = 0, []
    return total


def ok_pair(n):
    total = 0
    return total, []


def bad_loop(n):
    total = 1
    while n > 0:
        n -= 2
        total = 1
    return total
