_TABLE = [2, 3, 5]


class Box(object):
    def __init__(self, values):
        self.values = values

    def bad_entries(self):
        return self.values

    def ok_entries(self):
        return list(self.values)


class Grid(object):
    def __init__(self, entries):
        self.rows = [list(r) for r in entries]

    def bad_rows(self):
        return tuple(r for r in self.rows)


def bad_arg(values):
    if len(values) == 1:
        return values
    return list(values)


def bad_table(n):
    if n == 0:
        return _TABLE
    return _TABLE[:n]


def bad_default(n, acc=[]):
    return acc


def bad_gen(entries):
    for r in entries:
        yield r


def ok_fresh(entries):
    return [r[:] for r in entries]
