import heapq


def _drop(xs):
    ys = xs
    ys.pop()


def bad_sort(values):
    values.sort()
    return values[0]


def bad_nested(entries):
    for row in entries:
        row[0] = 1
    return 0


def bad_helper(values):
    _drop(values)
    return len(values)


def bad_aug(values):
    v = values
    v += [1]
    return sum(v)


def bad_closure(values):
    def go(n):
        if n:
            values.append(n)
            go(n - 1)
    go(3)
    return 1


def bad_heap(elements):
    heapq.heapify(elements)
    return elements[0]


def bad_gen(elements):
    for x in list(elements):
        yield x
        elements.remove(x)


def ok_copy(values):
    values = list(values)
    values.sort()
    _drop(values)
    return values


def ok_comp(edges):
    rows = [list(r) for r in edges]
    for r in rows:
        r[0] = 1
    return rows
