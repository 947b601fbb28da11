from heapq import heappush, heappop, heapify


def ok_sorted(values):
    return sorted(values)


def ok_branch(values, n):
    if n < 0:
        return []
    out = [v for v in values if v > n]
    if n > 10:
        out.sort()
        return out
    return sorted(set(out))


def _finish(out):
    out.sort()
    return out


def ok_helper(values):
    return _finish(list(values))


def ok_pair(values):
    total = sum(values)
    out = sorted(values)
    return total, out


def ok_small(n):
    if n == 1:
        return [1, 2]
    return [n]


def ok_either(values, n):
    if n > 0:
        out = [v for v in values]
    else:
        out = [-v for v in values]
    out.sort()
    return out


def bad_key(values, n):
    return sorted(values, key=lambda v: v % n)


def bad_after(values, n):
    out = sorted(values)
    out.append(n)
    return out


def bad_branch(values, n):
    out = list(values)
    if n > 3:
        out.sort()
    return out


def bad_alias(values, n):
    out = sorted(values)
    rest = out
    rest[0] = n
    return out


def bad_reverse(values):
    out = list(values)
    out.sort(reverse=True)
    return out


def bad_pair(values):
    out = list(set(values))
    return sum(out), out


def bad_before(values, n):
    out = sorted(values)
    return [v % n for v in out]


def _add(out, n):
    out.append(n)


def bad_helper(values, n):
    out = sorted(values)
    _add(out, n)
    return out


def ok_heap(values, n):
    heap = [n]
    while heap:
        x = heappop(heap)
        if x > n:
            heappush(heap, x - n)
    other = list(values)
    heapify(other)
    third = sorted(values)
    return heappop(other) + heappop(third)


def _push(heap, x):
    heappush(heap, x)


def ok_heap_helper(n):
    heap = []
    for i in range(n):
        _push(heap, i)
    return heappop(heap)


def bad_heap(values):
    heap = list(values)
    return heappop(heap)


def bad_heap_append(n):
    heap = [n]
    while heap:
        x = heappop(heap)
        if x > 3:
            heap.append(x - 1)


def bad_heap_store(values):
    heap = list(values)
    heapify(heap)
    heap[0] = heap[0] + 1
    return heappop(heap)


def ok_project(xs):
    pairs = sorted(xs.items())
    return [k for (k, v) in pairs if v]


def ok_gather(xs):
    out = []
    for k, v in sorted(xs.items()):
        if v:
            out.append(k)
    return out


def bad_project(xs):
    pairs = sorted(xs.items())
    return [v for (k, v) in pairs]


def bad_gather(xs):
    out = []
    for k in sorted(xs):
        if k > 3:
            out.append(-k)
    return out


def bad_gather_set(xs):
    out = []
    for k in set(xs):
        out.append(k)
    return out
