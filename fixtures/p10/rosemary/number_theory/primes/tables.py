"""positive (bad_*) and negative (ok_*) examples for P10; never executed"""
_PRIMES = [2, 3, 5, 7, 11, 17, 19, 23]
OK_PRIMES = [2, 3, 5, 7, 11, 13, 17]


def ok_table(n):
    small_primes = [3, 5, 7, 11, 13]
    return [p for p in small_primes if n % p]


def bad_table(n):
    prime_list = (3, 5, 7, 11, 13, 19)
    return [p for p in prime_list if n % p]


def ok_rows(n):
    return {2: [2], 3: [2, 3], 4: [2, 3], 5: [2, 3, 5]}[n]


def bad_rows(n):
    return {2: [2], 3: [2, 3], 4: [2, 3], 5: [2, 3]}[n]


def ok_phi(x, a):
    if a == 1:
        return (x + 1)//2
    if a == 2:
        value = x - x//2
        value -= x//3
        value = value + x//6
        return value
    elif a <= 3:
        odd = x//2 + x//3 + x//5
        pairs = x//6 + x//2//5 + x//15
        value = x - odd + pairs - x//30
    else:
        value = (x + 1)//2
        for p in (3, 5, 7):
            value -= ok_phi(x//p, 1)
    return value


def bad_phi(x, a):
    if a == 3:
        return x - x//2 - x//3 - x//5 + x//6 + x//10 + x//15 - x//60
    return ok_phi(x, a)


def bad_phi_guard(x, a):
    if a <= 3:
        if a == 1:
            value = x - x//2
        else:
            value = x - x//2 - x//3 - x//5 + x//6 + x//10 + x//15 - x//30
        return value
    return ok_phi(x, a)


GAPS = {1: 4, 5: 2}


def ok_wheel(d, n):
    while d*d <= n:
        d += GAPS[d % 6]
    gaps = [0, 6, 0, 0, 0, 0, 0, 4, 0, 0, 0, 2, 0, 4, 0, 0, 0, 2, 0, 4, 0, 0, 0, 6, 0, 0, 0, 0, 0, 2]
    while d*d <= n*n:
        d = d + gaps[d % 30]
    return d


def bad_wheel(d, n):
    gaps = {1: 6, 7: 6, 13: 4, 17: 2, 19: 4, 23: 6, 29: 2, 11: 2}
    while d*d <= n:
        d += gaps[d % 30]
    return d


def bad_wheel_row(d, n):
    gaps = {1: 4}
    while d*d <= n:
        d += gaps[d % 6]
    return d


def ok_padding(n):
    n = {0: n, 1: n + 3, 2: n + 2, 3: n + 1}[n % 4]
    return n


def bad_padding(n):
    n = {0: n, 1: n + 3, 2: n + 1, 3: n + 1}[n % 4]
    return n


def pad(n):
    return n + (-n % 6), n % 6 > 1


def ok_sieve(n):
    if n < 2:
        return []
    block = [1]*(n + 1)
    for i in range(3, n):
        block[i] = 0
    return [2] + [2*i + 1 for i in range(1, (n + 1)//2) if block[i]]


def bad_sieve(n):
    if n < 2:
        return []
    block = [1]*(n + 1)
    return [2] + [2*i + 1 for i in range(1, n//2) if block[i]]


def bad_sieve_start(n):
    block = [1]*(n + 1)
    return [2] + [i for i in range(5, n + 1, 2) if block[i]]


class Squares(object):
    q = [0]*63
    for k in range(32):
        q[k*k % 63] = 1
    bad = [0]*64
    for k in range(7):
        bad[k*k % 64] = 1

    @classmethod
    def ok_is_square(cls, n):
        if not cls.q[n % 63] or Squares.bad[n % 64] > 1:
            return False
        return True


def bad_is_square(n):
    if Squares.bad[n % 64] == 0:
        return False
    return True


def short_is_square(n):
    if Squares.q[n % 65] == 0:
        return False
    return True


def ok_jacobi(a, m):
    t = 1
    if m % 8 == 3 or m % 8 == 5:
        t = -t
    if a % 4 == m % 4 == 3:
        t *= -1
    return t


def bad_jacobi(a, m):
    t = 1
    if m & 7 in (3, 7):
        t = -t
    return t


def ok_root(a, p):
    if p & 3 == 3:
        return pow(a, (p + 1) >> 2, p)
    if p % 8 == 5:
        return pow(a, (p + 3)//8, p)
    return pow(a, (p - 1)//8, p)


def bad_root(a, p):
    if p % 8 in (3, 5):
        return pow(a, (p + 1)//4, p)
    return 0


def ok_scan(a):
    return [e for e in range(8) if e*e % 8 == a % 8]


def bad_scan(a):
    return [e for e in range(8) if e*e % 8 == a % 4]


def ok_sudoku(M):
    rows = []
    for i in range(9):
        for j in range(9):
            digits = range(1, 10) if M[i][j] == 0 else [M[i][j]]
            for d in digits:
                rows.append({(0, i, j), (1, d, i), (2, d, j), (3, d, 3*(i//3) + j//3)})
    return rows


def bad_sudoku(M):
    box = {(0, 0): 0, (0, 3): 1, (0, 6): 2, (3, 0): 3, (3, 3): 4, (3, 6): 5, (6, 0): 6, (6, 3): 7, (6, 6): 7}
    rows = []
    for i in range(9):
        for j in range(9):
            for d in range(1, 10):
                e = set()
                e.add('%dO%d' % (i, j))
                e.add('%dR%d' % (d, i))
                e.add('%dC%d' % (d, j))
                ii = i - i % 3
                jj = j - j % 3
                e.add('%dB%d' % (d, box[ii, jj]))
                rows.append(e)
    return rows


def petersen_graph():
    return [(0, 1), (0, 4), (0, 5), (1, 2), (1, 6), (2, 3), (2, 7), (3, 4), (3, 8), (4, 9), (5, 7), (5, 8), (6, 8), (6, 9), (7, 8)]
