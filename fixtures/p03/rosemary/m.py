def bad_loop(n):
    a = list(range(n))
    while True:
        yield a
        if a[0] == n:
            return
        a[0] += 1


def ok_loop(n):
    a = list(range(n))
    while True:
        yield a[:]
        if a[0] == n:
            return
        a[0] += 1


def bad_clear(n):
    out = []
    for i in range(n):
        out.append(i)
        if i % 3 == 0:
            yield out
            out.clear()


def ok_fresh(n):
    for i in range(n):
        out = []
        out.append(i)
        yield out


def bad_nested(n):
    used = []

    def go(k):
        if k == 0:
            yield used
        else:
            used.append(k)
            for x in go(k - 1):
                yield x
            used.pop()

    for s in go(n):
        yield s


def ok_nested(n):
    used = []

    def go(k):
        if k == 0:
            yield tuple(used)
        else:
            used.append(k)
            for x in go(k - 1):
                yield x
            used.pop()

    for s in go(n):
        yield s


def bad_row(entries):
    rows = [list(r) for r in entries]
    for i in range(len(rows)):
        yield (i, rows)
        rows[i][0] = 0


def bad_set(n):
    s = set()
    for i in range(n):
        s |= {i}
        yield s
