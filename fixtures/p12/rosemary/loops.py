from collections import defaultdict


def ok_copy(d):
    """Input: d: dict"""
    t = {1: 2, 3: 4}
    for k in list(t):
        if k > d:
            del t[k]
    return t


def ok_leaves(d):
    t = {1: 2, 3: 4}
    for k in t:
        if k > d:
            del t[k]
            break
    return t


def ok_returns(xs):
    t = [x + 1 for x in xs]
    for k in t:
        if k > 3:
            t.remove(k)
            return t
    return None


def ok_worklist(d):
    queue = [d]
    for x in queue:
        if len(queue) < 10:
            queue.append(x + 1)
    return queue


def ok_other(n):
    rows = {i: {i} for i in range(10)}
    for i in rows:
        for j in list(rows[i]):
            rows[i].discard(j)
    return rows


def ok_sorted(n):
    t = set(range(10))
    for k in sorted(t):
        t.discard(k)
    return t


def ok_recursion(n):
    def search(cand):
        for v in sorted(cand):
            rest = set(cand)
            rest.discard(v)
            search(rest)
    search(set(range(n)))
    return n


def ok_update(n):
    d = {i: 0 for i in range(10)}
    for k in d:
        d[k] = d[k] + 1
    return d


def ok_rebound(n):
    xs = list(range(10))
    for x in xs:
        xs = [y for y in xs if y != x]
        xs.pop()
    return xs


def bad_dict(n):
    t = {i: i for i in range(10)}
    for k in t:
        if k > n:
            del t[k]
    return t


def bad_view(n):
    t = {i: i for i in range(10)}
    for (k, v) in t.items():
        if v > n:
            t.pop(k)
            continue
    return t


def bad_list(n):
    t = [i for i in range(10)]
    for i, x in enumerate(t):
        if x > n:
            t.remove(x)
    return t


def bad_set(n):
    t = set(range(10))
    for x in t:
        t.add(x + 1)
        if x > n:
            break
    return t


def drop(t, x):
    t.discard(x)


def bad_callee(n):
    t = set(range(10))
    for x in t:
        drop(t, x)
    return t


def bad_alias(n):
    t = set(range(10))
    u = t
    for x in t:
        if x % 2:
            u.discard(x)
    return t


def bad_default(n):
    t = defaultdict(list)
    t[1].append(n)
    for x in t:
        t[x + 1].append(n)
    return t


class Bag(object):
    def __init__(self):
        self.items = {}

    def put(self, x):
        self.items[x] = 1

    def drop(self, x):
        del self.items[x]

    def ok_method(self):
        for x in list(self.items):
            self.drop(x)

    def bad_method(self):
        for x in self.items:
            self.drop(x)


def ok_file(path):
    with open(path) as f:
        return f.read()


def ok_finally(path):
    f = open(path)
    try:
        return f.read()
    finally:
        f.close()


def bad_file(path):
    return open(path).read()


def bad_late_close(path):
    f = open(path)
    lines = f.readlines()
    f.close()
    return lines


def ok_from_behind(xs):
    t = [x + 1 for x in xs]
    for x in reversed(t):
        if x == 0:
            t.pop()
    return t
