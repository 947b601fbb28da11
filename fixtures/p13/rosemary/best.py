def ok_copy(items):
    best = [0, []]
    used = []

    def go(i, size):
        if size > best[0]:
            best[0] = size
            best[1] = list(used)
        if i < len(items):
            used.append(items[i])
            go(i + 1, size + items[i])
            used.pop()
            go(i + 1, size)
    go(0, 0)
    return best


def bad_alias(items):
    best = [0, []]
    used = []

    def go(i, size):
        if size > best[0]:
            best[0] = size
            best[1] = used
        if i < len(items):
            used.append(items[i])
            go(i + 1, size + items[i])
            used.pop()
            go(i + 1, size)
    go(0, 0)
    return best


def ok_fresh(rows):
    best, tour = 0, None
    for row in rows:
        cand = list(row)
        cand.sort()
        total = sum(cand)
        if best < total:
            best, tour = total, cand
    return best, tour


def bad_loop(rows):
    best, tour = 0, None
    cand = []
    for row in rows:
        cand[:] = row
        total = sum(cand)
        if best < total:
            best, tour = total, cand
    return best, tour


def ok_rebound(rows):
    best, tour, cand = 0, None, []
    for row in rows:
        cand = cand + [row]
        total = len(cand)
        if total > best:
            best = total
            tour = cand
    tour.sort()
    return best, tour


def bad_shared(rows):
    classes = [set(), set()]
    best, kept = 0, None
    for i, row in enumerate(rows):
        classes[i % 2].add(row)
        total = len(classes[0])
        if total > best:
            best = total
            kept = list(classes)
    return best, kept


def bad_tuple(rows):
    best = (0, None)
    seen = set()
    for row in rows:
        seen.add(row)
        size = len(seen)
        if size > best[0]:
            best = (size, seen)
    return best


def _put(d, k):
    d[k] = True


def bad_helper(rows):
    best, kept = 0, None
    d = {}
    for row in rows:
        _put(d, row)
        if len(d) > best:
            best = len(d)
            kept = d
    return best, kept


def bad_flipped(rows):
    best, kept = 0, None
    cur = []
    for row in rows:
        cur.append(row)
        if not best < len(cur):
            continue
        best = len(cur)
        kept = cur
    return kept


def ok_own_place(rows):
    best, kept = 0, []
    for row in rows:
        new = [row]
        if len(new) > best:
            best = len(new)
            kept = new
            kept.append(row)
    return best, kept


def ok_values(a, b, n):
    best, arg = n, None
    for i in range(n):
        total = a[i] + b[i]
        if total < best:
            best = b[i] + a[i]
            arg = i
    return best, arg


def bad_value(a, b, n):
    best, arg = n, None
    for i in range(n):
        if a[i] + b[i] < best:
            best = a[i]
            arg = i
    return best, arg


def bad_offset(a, n):
    best, arg = n, None
    for i in range(n):
        size = a[i]
        if size + 1 < best:
            best = size
            arg = i
    return best, arg


def ok_steps(a, n):
    lo, hi, steps = 0, n, 0
    while lo < hi:
        mid = (lo + hi)//2
        if a[mid] < n:
            lo = mid + 1
        else:
            hi = mid
        steps = steps + 1
    return lo, steps


def ok_swap(x, y):
    sx, sy = 1, 2
    if x < y:
        x, y = y, x
        sx, sy = sy, sx
    x = abs(x)
    return x, y, sx, sy


def ok_ties(deg, adj):
    max_adj, max_deg, s = -1, 0, None
    for u in deg:
        if adj[u] == max_adj:
            if deg[u] > max_deg:
                max_deg = deg[u]
                s = u
        elif adj[u] > max_adj:
            max_adj = adj[u]
            max_deg = deg[u]
            s = u
    return s


def ok_nested(deg, adj):
    best, arg, second, two = 0, None, 0, None
    for u in deg:
        if deg[u] > best:
            best = deg[u]
            arg = u
            if adj[u] > second:
                second = adj[u]
                two = u
    return arg, two


def bad_once(deg, adj):
    best, arg = 0, None
    for u in deg:
        if deg[u] > best:
            best = deg[u]
            arg = u
        if adj[u] > best:
            best = adj[u]
    return best, arg


def bad_branch(deg, seen):
    best, arg = 0, None
    for u in deg:
        d = deg[u]
        if d > best:
            best = d
            if u not in seen:
                arg = u
    return best, arg


def bad_lone(deg, seen):
    best, arg = 0, None
    for u in deg:
        d = deg[u]
        if d > best:
            if u not in seen:
                best = d
            arg = u
    return best, arg


def ok_pair(rows):
    best, kept = 0, None
    for row in rows:
        total = len(row)
        if total <= best:
            continue
        best = total
        kept = list(row)
    return best, sorted(kept)


def ok_dicts(edges):
    dist, prev = {}, {}
    for u, v, w in edges:
        dist[u] = 0
        prev[u] = None
    for u, v, w in edges:
        d = dist[u] + w
        if d < dist[v]:
            prev[v] = u
            dist[v] = d
    return dist, prev


def bad_unguarded(rows):
    best, kept = 0, None
    for row in rows:
        total = len(row)
        if total > best:
            best = total
        kept = row
    return best, kept


def bad_before(edges, dist):
    prev = {}
    for u, v, w in edges:
        prev[v] = u
        if dist[u] + w < dist[v]:
            dist[v] = dist[u] + w
            prev[v] = u
    return dist, prev


def bad_setdefault(edges, dist):
    prev = {}
    for u, v, w in edges:
        if dist[u] + w < dist[v]:
            dist[v] = dist[u] + w
            prev.setdefault(v, u)
    return dist, prev


def bad_slot(rows):
    best = [0, None]

    def visit(row):
        size = len(row)
        if size > best[0]:
            best[0] = size
            best[1] = list(row)
        elif row:
            best[1] = list(row)
    for row in rows:
        visit(row)
    return best
