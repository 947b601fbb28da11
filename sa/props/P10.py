"""P10: precomputed tables and hand-expanded case analyses are complete and right."""
import ast
import copy
import itertools
import re
from ..common import *
from ..fold import Folder, Aff, No, Floor, floor_form, legendre_form, fadd, UNKNOWN, K0

LEVEL = 'other'
EXPLANATION = ('Constant propagation over the literals in the source and their initialisers, with two exact abstract domains: integer '
               'combinations of floor(x/m) for the expanded prime-counting formulas, and affine forms per residue class of the argument '
               'for sieve index arithmetic.  Each table or formula found is compared with the mathematical object it stands for; tables '
               'and formulas are recognised by their use (what is indexed by a residue, added to a candidate, compared with squares), '
               'not by their position.')
RULES = ['prime-table: a table of primes lists consecutive primes, without gaps or intruders',
         'prime-rows: a table from n to the primes up to n',
         'phi-formula: a sum of floor(x/m) terms equals the inclusion-exclusion formula of the number of primes it is used for',
         'wheel: each step of a wheel goes from a residue coprime to the wheel size to the next one, and every such residue has a step',
         'residue-rows: a table indexed by n % m has a row for every residue, and its rows agree modulo m',
         'sieve-range: the candidates a sieve returns start where the listed primes end and stop exactly at n, for every residue class of n',
         'square-table: no perfect square is rejected by the residue tables, and every residue is inside its table',
         'character-table: the residue classes that change the sign of a quadratic symbol',
         'exact-exponent: an exponent (p + c)//d of a power modulo p is an exact quotient in every residue class that reaches it',
         'residue-scan: the candidates and both sides of a congruence solved by trying all residues use one modulus',
         'constraint-families: the sudoku constraints are cell, row, column and box, each over all digits',
         'petersen: ten vertices, three edges each, no cycle shorter than five']
ASSUMPTIONS = ['sieve index arithmetic is decided for n >= %d; smaller n are constants of the boundary property' % (6*K0),
               'a table built in a way constant propagation does not follow is not judged (counted in the evidence)']
MINIMUM = {'prime_tables': 1, 'primes_checked': 1000}


def sieve(n):
    b = bytearray([1])*(n + 1)
    b[:2] = b'\0\0'
    for i in range(2, int(n**0.5) + 1):
        if b[i]:
            b[i*i::i] = bytes(len(range(i*i, n + 1, i)))
    return b


def subst(e, defs):
    """the expression with local definitions put in"""
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            return copy.deepcopy(defs[n.id]) if isinstance(n.ctx, ast.Load) and n.id in defs else n
    return T().visit(copy.deepcopy(e)) if any(isinstance(n, ast.Name) and n.id in defs for n in ast.walk(e)) else e


class Check(object):
    def __init__(self, ctx):
        self.ctx, self.proj, self.res = ctx, ctx.proj, Result()
        self.primes = sieve(1100000)
        self.plist = [i for i in range(len(self.primes)) if self.primes[i]]

    def scopes(self, m):
        """(body, class, function) of every scope of the module"""
        yield m.tree.body, None, None
        for c in m.classes.values():
            yield c.node.body, c, None
        for f in self.proj.functions:
            if f.module is m and not f.is_lambda:
                yield f.node.body, self.cls_of(f), f

    def cls_of(self, f):
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    def folder(self, m, c, f):
        return Folder(self.proj, m, c, f)

    def where(self, m, c, f):
        if f is not None:
            return f
        return '%s:%s' % (m.relpath, c.name if c is not None else '<module>')

    def add(self, rule, w, construct, msg, line):
        self.res.add(Finding(rule, w, construct, msg, line))

    @staticmethod
    def own(body):
        """nodes of this scope, nested functions and classes excluded"""
        st = list(body)
        while st:
            n = st.pop()
            yield n
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    st.append(c)

    def run(self):
        self.nprime = 0
        for m in sorted(self.proj.modules.values(), key=lambda m: m.name):
            if m.path is None:
                continue
            nt = 'number_theory' in m.relpath
            for body, c, f in self.scopes(m):
                body = [s for s in body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))] if f is None else body
                if nt:
                    self.rule(self.prime_tables, m, c, f, body)
                    self.rule(self.index_tables, m, c, f, body)
                    if f is not None:
                        self.rule(self.forms, m, c, f)
                        self.rule(self.sieve_range, m, c, f)
                        self.rule(self.square_tests, m, c, f)
                        self.rule(self.characters, m, c, f)
                        self.rule(self.exponents, m, c, f)
                        self.rule(self.scans, m, c, f)
                if f is not None and f.name == 'petersen_graph':
                    self.rule(self.petersen, m, c, f)
                if f is not None and 'sudoku' in f.name:
                    self.rule(self.sudoku, m, c, f)
        return self.res

    def rule(self, check, *args):
        try:
            check(*args)
        except No:
            self.res.count('scopes_not_followed')

    # ------------------------------------------------------------------ tables of primes
    def prime_tables(self, m, c, f, body):
        for n in self.own(body):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
                continue
            name, v = n.targets[0].id, n.value
            if not re.search('prime', name, re.I) or not isinstance(v, (ast.List, ast.Tuple)) or len(v.elts) < 5:
                continue
            if not all(isinstance(e, ast.Constant) and isinstance(e.value, int) for e in v.elts):
                continue
            vals = [e.value for e in v.elts]
            if sum(1 for x in vals if 0 <= x < len(self.primes) and self.primes[x]) < len(vals)//2:
                continue
            if f is not None and 'cache' in name:
                continue
            self.res.count('prime_tables')
            self.res.count('primes_checked', len(vals))
            self.res.sample('prime tables', '%s.%s: %d entries, last %d' % (m.name, name, len(vals), vals[-1]))
            start = vals[0] if 0 <= vals[0] < len(self.primes) and self.primes[vals[0]] else (2 if f is None else 3)
            if f is None:
                start = 2
            i = self.plist.index(start)
            for j, (x, y) in enumerate(itertools.zip_longest(vals, self.plist[i:i + len(vals)])):
                if x != y:
                    self.add('prime-table', self.where(m, c, f), name, 'entry %d of %s is %s, the prime there is %s' % (j, name, x, y), n.lineno)
                    break

    # ------------------------------------------------------------------ tables indexed by a residue
    def index_tables(self, m, c, f, body):
        F = self.folder(m, c, f)
        for n in self.own(body):
            if isinstance(n, (ast.AugAssign, ast.Assign)):
                self.wheel(m, c, f, F, n)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                self.rows(m, c, f, F, n)

    @staticmethod
    def residue_index(e):
        """(variable, modulus expression) of v % M"""
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Name):
            return e.left.id, e.right
        return None

    def wheel(self, m, c, f, F, n):
        """d += T[d % M]"""
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
            v, step = n.target.id, n.value
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) \
                and isinstance(n.value.op, ast.Add):
            v = n.targets[0].id
            if isinstance(n.value.left, ast.Name) and n.value.left.id == v:
                step = n.value.right
            elif isinstance(n.value.right, ast.Name) and n.value.right.id == v:
                step = n.value.left
            else:
                return
        else:
            return
        if not isinstance(step, ast.Subscript):
            return
        r = self.residue_index(step.slice)
        if r is None or r[0] != v:
            return
        try:
            M, T = F.expr(r[1], {}), F.expr(step.value, {})
        except No:
            self.res.count('not_followed')
            return
        if not isinstance(M, int) or M < 2 or M > 10**5:
            return
        rows = dict(enumerate(T)) if isinstance(T, (list, tuple)) else dict(T)
        self.res.count('wheels')
        self.res.sample('wheels', '%s line %d: modulus %d, %d rows' % (f or m.name, n.lineno, M, len(rows)))
        units = [u for u in range(M) if gcd(u, M) == 1]
        for i, u in enumerate(units):
            nxt = units[i + 1] if i + 1 < len(units) else units[0] + M
            if u not in rows:
                self.add('wheel', self.where(m, c, f), 'row %d' % u, 'the wheel modulo %d has no step for candidates = %d (mod %d)' % (M, u, M), n.lineno)
            elif not isinstance(rows[u], int) or rows[u] < 1 or u + rows[u] > nxt:
                self.add('wheel', self.where(m, c, f), 'row %d' % u, 'from %d (mod %d) the wheel steps by %s and skips %d' % (u, M, rows[u], nxt), n.lineno)
            elif (u + rows[u]) % M not in rows:
                self.add('wheel', self.where(m, c, f), 'row %d' % u, 'from %d (mod %d) the wheel steps by %s to a residue without a row' % (u, M, rows[u]), n.lineno)

    def rows(self, m, c, f, F, n):
        """{0: n, 1: n - 1, ...}[n % M]: a row for each residue; {2: [2], 3: [2, 3]}[n]"""
        if isinstance(n.value, ast.Dict) and n.value.keys and all(k is not None for k in n.value.keys):
            keys = [k.value if isinstance(k, ast.Constant) else None for k in n.value.keys]
            r = self.residue_index(n.slice)
            if r is not None:
                try:
                    M = F.expr(r[1], {})
                except No:
                    return
                if not isinstance(M, int) or not 2 <= M <= 1000 or not all(isinstance(k, int) for k in keys):
                    return
                vals = {}
                for k, v in zip(keys, n.value.values):
                    try:
                        vals[k] = [F.expr(v, {r[0]: k + M*t}) for t in (7, 50)]
                    except No:
                        return
                if not all(isinstance(x, int) for v in vals.values() for x in v):
                    return
                if any(isinstance(n2, ast.Name) for v in n.value.values for n2 in ast.walk(v)):
                    self.res.count('residue_row_tables')
                    self.res.sample('residue rows', '%s line %d: modulo %d' % (f or m.name, n.lineno, M))
                    for u in range(M):
                        if u not in vals:
                            self.add('residue-rows', self.where(m, c, f), 'row %d' % u, 'no row for %s = %d (mod %d)' % (r[0], u, M), n.lineno)
                    cl = [v[0] % M for v in vals.values()]
                    most = max(set(cl), key=cl.count)
                    if cl.count(most)*2 > len(cl):
                        for k, v in sorted(vals.items()):
                            if v[0] % M != most:
                                self.add('residue-rows', self.where(m, c, f), 'row %d' % k,
                                         'the row for %s = %d (mod %d) gives %d (mod %d), the others give %d' % (r[0], k, M, v[0] % M, M, most), n.lineno)
            elif isinstance(n.slice, ast.Name) and all(isinstance(k, int) and 0 <= k < 10**4 for k in keys):
                try:
                    T = F.expr(n.value, {})
                except No:
                    return
                want = {k: [p for p in self.plist[:k + 1] if p <= k] for k in keys}
                if all(isinstance(v, (list, tuple)) for v in T.values()) and sum(list(T[k]) == want[k] for k in keys)*2 > len(keys):
                    self.res.count('prime_row_tables')
                    for k in keys:
                        if list(T[k]) != want[k]:
                            self.add('prime-rows', self.where(m, c, f), 'row %d' % k, 'row %d is %s, the primes up to %d are %s' % (k, list(T[k]), k, want[k]), n.lineno)
                    for k in range(min(keys), max(keys)):
                        if k not in keys:
                            self.add('prime-rows', self.where(m, c, f), 'row %d' % k, 'no row for %d' % k, n.lineno)

    # ------------------------------------------------------------------ floor-linear formulas
    def forms(self, m, c, f):
        self.form_block(m, c, f, f.node.body, [], {})
        for n in ast.walk(f.node):
            if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, int) for k in n.keys):
                for k, v in zip(n.keys, n.values):
                    if isinstance(v, ast.Lambda) and len(v.args.args) == 1:
                        self.judge(m, c, f, floor_form(v.body, {}), {k.value}, v.lineno)

    def form_block(self, m, c, f, body, conds, env):
        """follow assignments of floor forms through one block; judge each complete form"""
        conds, env = list(conds), dict(env)
        mine = {}
        for i, s in enumerate(body):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consume(s.value, mine)
                t = s.targets[0].id
                v = floor_form(s.value, env)
                env.pop(t, None)
                mine.pop(t, None)
                env[t] = v
                if isinstance(v, Floor):
                    mine[t] = (v, s.lineno)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.consume(s.value, mine)
                t = s.target.id
                v = floor_form(ast.BinOp(left=ast.Name(id=t, ctx=ast.Load()), op=s.op, right=s.value), env) if t in env and t in mine else None
                mine.pop(t, None)
                env[t] = v
                if isinstance(v, Floor):
                    mine[t] = (v, s.lineno)
            elif isinstance(s, ast.Return):
                if s.value is not None and not isinstance(s.value, ast.Name):
                    self.consume(s.value, mine)
                    self.judge(m, c, f, floor_form(s.value, env), self.guard(m, c, f, conds), s.lineno)
            elif isinstance(s, ast.If):
                self.form_block(m, c, f, s.body, conds + [(s.test, True)], env)
                self.form_block(m, c, f, s.orelse, conds + [(s.test, False)], env)
                if self.ends(s.body) and not s.orelse:
                    conds.append((s.test, False))
                self.kill(s, env, mine)
            elif isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                for part in ('body', 'orelse', 'finalbody'):
                    e2 = dict(env)
                    self.kill(s, e2, {})
                    self.form_block(m, c, f, getattr(s, part, []) or [], conds, e2)
                self.kill(s, env, mine)
            elif isinstance(s, ast.FunctionDef):
                pass
            elif isinstance(s, (ast.Assign, ast.Expr)):
                if not isinstance(getattr(s, 'value', None), ast.Name):
                    self.consume(s, mine)
            else:
                self.kill(s, env, mine)
        g = None
        for t, (v, line) in mine.items():
            g = self.guard(m, c, f, conds) if g is None else g
            self.judge(m, c, f, v, g, line)

    @staticmethod
    def consume(e, mine):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                mine.pop(n.id, None)

    @staticmethod
    def kill(s, env, mine):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = None
                mine.pop(n.id, None)

    @staticmethod
    def ends(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def guard(self, m, c, f, conds):
        """values 1..15 of the variable the conditions are about, or None"""
        F = self.folder(m, c, f)
        names = {n.id for t, _ in conds for n in ast.walk(t) if isinstance(n, ast.Name)}
        best = None
        for v in sorted(names):
            ok = set()
            for x in range(1, 16):
                good = True
                for t, pol in conds:
                    for part, p in self.conjuncts(t, pol):
                        try:
                            r = F.expr(part, {v: x})
                        except No:
                            continue
                        try:
                            if bool(r) != p:
                                good = False
                        except No:
                            continue
                if good:
                    ok.add(x)
            if len(ok) < 15 and (best is None or len(ok) < len(best)):
                best = ok
        return best

    def conjuncts(self, t, pol):
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if pol else ast.Or):
            for x in t.values:
                for y in self.conjuncts(x, pol):
                    yield y
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            for y in self.conjuncts(t.operand, not pol):
                yield y
        else:
            yield t, pol

    def judge(self, m, c, f, v, guard, line):
        if not isinstance(v, Floor):
            return
        big = len(v.c) >= 4
        if not big and not (guard is not None and len(guard) == 1 and len(v.c) >= 2 and set(v.c.values()) <= {1, -1} and v.c.get(1) == 1):
            return
        if not all(x in (1, -1) for x in v.c.values()) and not big:
            return
        if not big and list(guard)[0] != 1 and 'prime' not in m.relpath:
            return
        self.res.count('floor_formulas')

        def dist(a):
            w = legendre_form(a)
            return sum(1 for k in set(w) | set(v.c) if w.get(k, 0) != v.c.get(k, 0))
        near = min(range(1, 9), key=dist)
        if big and dist(near)*2 > 2**near + 2:
            self.res.count('floor_formulas', -1)
            return                       # some other formula
        self.res.sample('floor formulas', '%s line %d: %d terms' % (f, line, len(v.c)))
        want = legendre_form(near)
        diff = sorted(k for k in set(want) | set(v.c) if want.get(k, 0) != v.c.get(k, 0))
        if diff or v.c0:
            self.add('phi-formula', f, 'a=%d' % near, 'the formula for the first %d primes is wrong at %s' % (
                near, ', '.join('%s//%d (coefficient %d, not %d)' % (v.x, k, v.c.get(k, 0), want.get(k, 0)) for k in diff[:4]) or 'its constant'), line)
        elif guard is not None and 0 < len(guard) <= 6 and guard != {near}:
            self.add('phi-formula', f, 'a=%d' % near, 'the formula for the first %d primes is used for a in %s' % (near, sorted(guard)), line)

    # ------------------------------------------------------------------ sieves
    def sieve_range(self, m, c, f):
        """return P + [e(i) for i in range(lo, hi) if block[i]], evaluated for n = 6k + r"""
        if 'prime' not in m.relpath or f.parent is not None or len(f.params) != 1:
            return
        rets = sorted((n for n in self.own(f.node.body) if isinstance(n, ast.Return) and n.value is not None), key=lambda n: n.lineno)
        if not rets or not self.listing(rets[-1].value):
            return
        got = []
        for r in range(6):
            try:
                F = self.folder(m, c, f)
                env = {f.params[0]: Aff(6, r)}
                ret = F.block(f.node.body, env)
                if ret is None:
                    raise No('no return')
                got.append((r, self.range_of(F, ret.value, env), ret.lineno))
            except No:
                self.res.count('not_followed')
                return
        if any(g[1] is None for g in got):
            self.res.count('not_followed')
            return
        self.res.count('sieve_ranges')
        self.res.sample('sieve ranges', f.fq)
        for r, (prefix, firsts, last, after, step), line in got:
            msg = None
            if step is None:
                msg = 'the candidates do not run through every number coprime to %s' % (prefix or 1)
            elif aff_gt(last, Aff(6, r)):
                msg = 'for n = 6k + %d candidates run up to %s, beyond n' % (r, last)
            elif not aff_gt(after, Aff(6, r)):
                msg = 'for n = 6k + %d the last candidate is %s, and the next, %s, is not beyond n' % (r, last, after)
            else:
                cand = set(prefix) | set(firsts)
                miss = [p for p in self.plist if p <= max(firsts) and p not in cand]
                if miss:
                    msg = 'the candidates start too late: %s is missing' % miss[0]
                elif any(not self.primes[p] for p in prefix):
                    msg = 'the listed primes %s are not all prime' % (prefix,)
            if msg:
                self.add('sieve-range', f, 'r=%d' % r, msg, line)

    @staticmethod
    def listing(e):
        while isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            e = e.right
        return isinstance(e, ast.ListComp) and len(e.generators) == 1

    def range_of(self, F, e, env):
        """(listed primes, first candidates, last candidate, the one after it, step or None)"""
        prefix = []
        while isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            prefix += F.expr(e.left, env)
            e = e.right
        if not isinstance(e, ast.ListComp) or len(e.generators) != 1:
            raise No('listing')
        g = e.generators[0]
        if not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == 'range' and isinstance(g.target, ast.Name)):
            raise No('listing')
        a = [F.expr(x, env) for x in g.iter.args]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if not isinstance(lo, int) or not isinstance(hi, Aff) or not isinstance(st, int) or st < 1:
            raise No('range')
        if len(g.ifs) != 1 or not isinstance(g.ifs[0], ast.Subscript):
            raise No('filter')
        i = g.target.id
        # last index lo + st*t < hi
        d = aff_bin_(ast.Sub(), aff_bin_(ast.Sub(), hi, 1), lo)
        last_i = aff_bin_(ast.Add(), aff_bin_(ast.Mult(), aff_bin_(ast.FloorDiv(), d, st), st), lo)

        def val(x):
            return F.expr(e.elt, dict(env, **{i: x}))
        last, after = val(last_i), val(aff_bin_(ast.Add(), last_i, st))
        firsts = [val(lo + st*t) for t in range(12)]
        P = 1
        for p in prefix:
            P *= p
        step = None
        units = [u for u in range(1, P + 1) if gcd(u, P) == 1] if P < 10**4 else None
        if units is not None:
            # one full turn: i = lo + st*(len(units)*k + j)
            turn = [val(aff_bin_(ast.Add(), Aff(st*len(units), st*j), lo)) for j in range(len(units))]
            if all(isinstance(t, Aff) and t.a == P for t in turn) and {t.b % P for t in turn} == {u % P for u in units}:
                step = P
        return prefix, firsts, last, after, step

    # ------------------------------------------------------------------ squares
    def square_tests(self, m, c, f):
        """a guard `T[n % M] == 0` that answers False must let every square through"""
        if not any(isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Name)
                   and n.left.id == n.right.id for n in ast.walk(f.node)) and 'square' not in f.name.lower():
            return
        if 'square' not in f.name.lower():
            return
        F = self.folder(m, c, f)
        for s in self.own(f.node.body):
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.body[0].value, ast.Constant) \
                    and s.body[0].value.value is False:
                for t in (s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) else [s.test]):
                    subs = [n for n in ast.walk(t) if isinstance(n, ast.Subscript) and self.residue_index(n.slice)]
                    if len(subs) != 1:
                        continue
                    v, me = self.residue_index(subs[0].slice)
                    try:
                        M, T = F.expr(me, {}), F.expr(subs[0].value, {})
                    except No:
                        self.res.count('not_followed')
                        continue
                    if not isinstance(M, int) or not 1 < M <= 200000 or not isinstance(T, (list, tuple, bytearray, bytes)):
                        continue
                    self.res.count('square_tables')
                    self.res.count('square_residues', M)
                    self.res.sample('square tables', '%s line %d: modulo %d' % (f, s.lineno, M))
                    if len(T) < M:
                        self.add('square-table', f, 'modulo %d' % M, 'the table has %d entries, residues run to %d' % (len(T), M - 1), s.lineno)
                        continue
                    bad = None
                    for r in sorted({k*k % M for k in range(M//2 + 1)}):
                        try:
                            if F.expr(t, {v: r}):
                                bad = r
                                break
                        except No:
                            break
                    if bad is not None:
                        self.add('square-table', f, 'modulo %d' % M, 'squares = %d (mod %d) are rejected' % (bad, M), s.lineno)

    # ------------------------------------------------------------------ quadratic symbols
    def characters(self, m, c, f):
        if not re.search('jacobi|legendre|kronecker|symbol', f.name):
            return
        F = self.folder(m, c, f)

        def visit(body, conds, defs):
            conds, defs = list(conds), dict(defs)
            for s in body:
                if isinstance(s, ast.If):
                    t = subst(s.test, defs)
                    visit(s.body, conds + [(t, True)], defs)
                    visit(s.orelse, conds + [(t, False)], defs)
                    if self.ends(s.body) and not s.orelse:
                        conds.append((t, False))
                elif isinstance(s, (ast.For, ast.While)):
                    visit(s.body, [], {})
                elif isinstance(s, (ast.With, ast.Try)):
                    visit(s.body, conds, defs)
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], ast.Name):
                    t = subst(s.value.test, defs)
                    for v, w in ((s.value.body, True), (s.value.orelse, False)):
                        x = ast.copy_location(ast.Assign(s.targets, v), s)
                        if self.negates(x):
                            self.character(m, c, f, F, s, conds + [(t, w)])
                elif self.negates(s):
                    self.character(m, c, f, F, s, conds)
                stored = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                defs = {k: v for k, v in defs.items() if k not in stored and not any(isinstance(n, ast.Name) and n.id in stored for n in ast.walk(v))}
                conds = [(t, w) for t, w in conds if not any(isinstance(n, ast.Name) and n.id in stored for n in ast.walk(t))]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp)) \
                        and s.targets[0].id not in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}:
                    defs[s.targets[0].id] = subst(s.value, defs)
        visit(f.node.body, [], {})

    def character(self, m, c, f, F, s, conds):
        mods, tests = {}, []
        for t, pol in conds:
            for part, want in self.conjuncts(t, pol):
                here = {}
                for n in ast.walk(part):
                    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.BitAnd)) and isinstance(n.left, ast.Name):
                        try:
                            k = F.expr(n.right, {})
                        except No:
                            return
                        if not isinstance(k, int) or k <= 0:
                            return
                        if isinstance(n.op, ast.BitAnd):
                            k = 1 << k.bit_length()
                        here.setdefault(n.left.id, []).append(k)
                if not here or all(max(ks) < 4 for ks in here.values()):
                    continue
                loads = [n.id for n in ast.walk(part) if isinstance(n, ast.Name)]
                if any(loads.count(v) != len(here.get(v, [])) for v in loads) or any(8 % k for ks in here.values() for k in ks):
                    return
                tests.append((part, want))
                for v, ks in here.items():
                    mods.setdefault(v, []).extend(ks)
        vs = sorted(mods)
        if not vs or len(vs) > 2:
            return
        try:
            got = {x for x in itertools.product((1, 3, 5, 7), repeat=len(vs)) if all(bool(F.expr(t, dict(zip(vs, x)))) == w for t, w in tests)}
        except No:
            return
        want = {(3,), (5,)} if len(vs) == 1 else {(a, b) for a in (3, 7) for b in (3, 7)}
        self.res.count('character_tables')
        self.res.sample('character tables', '%s line %d: %s' % (f, s.lineno, ', '.join(vs)))
        if got != want:
            self.add('character-table', f, ','.join(vs), 'the sign changes for %s = %s (mod 8), it must for %s' % (
                ', '.join(vs), sorted(x if len(x) > 1 else x[0] for x in got), sorted(x if len(x) > 1 else x[0] for x in want)), s.lineno)

    @staticmethod
    def negates(s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            return isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Name) and v.operand.id == s.targets[0].id
        return isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Mult) and isinstance(s.value, ast.UnaryOp)

    # ------------------------------------------------------------------ modular powers under congruence conditions
    def exponents(self, m, c, f):
        F = self.folder(m, c, f)

        def visit(body, conds):
            conds = list(conds)
            for s in body:
                if isinstance(s, ast.If):
                    visit(s.body, conds + [(s.test, True)])
                    visit(s.orelse, conds + [(s.test, False)])
                    exprs = [s.test]
                    if self.ends(s.body) and not s.orelse:
                        conds.append((s.test, False))
                elif isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                    for part in ('body', 'orelse', 'finalbody'):
                        visit(getattr(s, part, []) or [], conds)
                    continue
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                else:
                    exprs = [s]
                for e in exprs:
                    for n in ast.walk(e):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('pow', 'power_mod') and len(n.args) == 3:
                            self.exponent(m, c, f, F, n, conds)
        visit(f.node.body, [])

    def exponent(self, m, c, f, F, n, conds):
        e, p = n.args[1], n.args[2]
        if not isinstance(p, ast.Name) or not isinstance(e, ast.BinOp) or not isinstance(e.op, (ast.FloorDiv, ast.RShift)):
            return
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        if names != {p.id}:
            return
        try:
            d = F.expr(e.right, {})
            d = 1 << d if isinstance(e.op, ast.RShift) else d
        except No:
            return
        if not isinstance(d, int) or not 1 < d <= 64:
            return
        M = d*8
        res = []
        informed = False
        for r in range(1, M, 2):
            ok = True
            for t, pol in conds:
                for part, want in self.conjuncts(t, pol):
                    if not any(isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.BitAnd)) and isinstance(x.left, ast.Name)
                               and x.left.id == p.id for x in ast.walk(part)):
                        continue
                    try:
                        if bool(F.expr(part, {p.id: r + M})) != want:
                            ok = False
                        informed = True
                    except No:
                        pass
            if ok:
                res.append(r)
        if not informed:
            return
        self.res.count('exponents')
        self.res.sample('exponents', '%s line %d: %s' % (f, n.lineno, ast.unparse(e)))
        for r in res:
            try:
                x = F.expr(e.left, {p.id: r + M})
            except No:
                return
            if x % d:
                self.add('exact-exponent', f, ast.unparse(e), '%s is not an exact quotient for %s = %d (mod %d), which reaches it' % (ast.unparse(e), p.id, r % 8, 8), n.lineno)
                return

    # ------------------------------------------------------------------ congruences solved by trying all residues
    def scans(self, m, c, f):
        F = self.folder(m, c, f)
        for n in self.own(f.node.body):
            if not (isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and len(n.generators) == 1 and len(n.generators[0].ifs) == 1):
                continue
            g = n.generators[0]
            t = g.ifs[0]
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(g.target, ast.Name)):
                continue
            sides = [t.left, t.comparators[0]]
            if not all(isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) for x in sides):
                continue
            if not any(isinstance(x, ast.Name) and x.id == g.target.id for x in ast.walk(t)):
                continue
            try:
                R = F.expr(g.iter, {})
                ms = [F.expr(x.right, {}) for x in sides]
            except No:
                continue
            self.res.count('residue_scans')
            if isinstance(R, (range, list, tuple)) and len(set(ms)) == 1 and {x % ms[0] for x in R} == set(range(ms[0])) and len(R) == ms[0]:
                continue
            self.add('residue-scan', f, ast.unparse(t), 'tries %s residues, with moduli %s' % (len(R), sorted(set(ms))), n.lineno)

    # ------------------------------------------------------------------ named objects
    def petersen(self, m, c, f):
        F = self.folder(m, c, f)
        for n in self.own(f.node.body):
            if isinstance(n, (ast.List, ast.Tuple, ast.Set, ast.ListComp, ast.SetComp)) and not isinstance(getattr(n, 'ctx', None), ast.Store):
                try:
                    E = [tuple(e) for e in F.expr(n, {})]
                except (No, TypeError):
                    continue
                if len(E) < 10 or not all(len(e) == 2 for e in E):
                    continue
                self.res.count('petersen_tables')
                adj = {}
                for u, v in E:
                    adj.setdefault(u, set()).add(v)
                    adj.setdefault(v, set()).add(u)
                msg = None
                if len(adj) != 10:
                    msg = '%d vertices' % len(adj)
                elif any(len(a) != 3 or u in a for u, a in adj.items()):
                    msg = 'degrees %s' % sorted((str(u), len(a)) for u, a in adj.items() if len(a) != 3 or u in a)
                elif any(adj[u] & adj[v] for u in adj for v in adj[u]):
                    msg = 'a triangle'
                elif any(len(adj[u] & adj[v]) > 1 for u in adj for v in adj if u != v):
                    msg = 'a cycle of length 4'
                if msg:
                    self.add('petersen', f, 'edges', 'the edge list does not describe the Petersen graph: %s' % msg, n.lineno)

    def sudoku(self, m, c, f):
        """the expressions put into each row, as partitions of (row, column, digit)"""
        F = self.folder(m, c, f)
        loops = []

        def nest(body, depth):
            for s in body:
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                    try:
                        R = list(F.expr(s.iter, {}))
                    except No:
                        R = None
                    loops.append((s.target.id, R, s.body))
                    nest(s.body, depth + 1)
                elif isinstance(s, ast.If):
                    nest(s.body, depth)
                    nest(s.orelse, depth)
        nest(f.node.body, 0)
        rc = [x for x in loops if x[1] == list(range(9))]
        if len(loops) < 3 or len(rc) != 2:
            return
        last = loops[-1]
        if last in rc:
            return
        # parts of the bodies of the row, column and digit loops, in order
        line = []
        for v, R, body in loops:
            line += [s for s in body if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.For))]
        exprs = []
        for s in ast.walk(ast.Module(body=last[2], type_ignores=[])):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'add' and len(s.args) == 1:
                exprs.append(s.args[0])
            elif isinstance(s, ast.Set):
                exprs += s.elts
        if len(exprs) < 4:
            return
        r, cc, d = rc[0][0], rc[1][0], last[0]
        parts = []
        for e in exprs:
            groups = {}
            for R in range(9):
                for C in range(9):
                    for D in range(1, 10):
                        env = {r: R, cc: C, d: D}
                        for s in line:
                            if isinstance(s, ast.Assign):
                                try:
                                    F.bind(s.targets[0], F.expr(s.value, env), env)
                                except No:
                                    pass
                        try:
                            k = F.expr(e, env)
                        except No:
                            self.res.count('not_followed')
                            return
                        groups.setdefault(k, set()).add((R, C, D))
            parts.append(frozenset(map(frozenset, groups.values())))

        def part(key):
            g = {}
            for R in range(9):
                for C in range(9):
                    for D in range(1, 10):
                        g.setdefault(key(R, C, D), set()).add((R, C, D))
            return frozenset(map(frozenset, g.values()))
        want = {'cell': part(lambda R, C, D: (R, C)), 'row': part(lambda R, C, D: (R, D)), 'column': part(lambda R, C, D: (C, D)),
                'box': part(lambda R, C, D: (R//3, C//3, D))}
        self.res.count('constraint_families', len(parts))
        for k, w in sorted(want.items()):
            if w not in parts:
                self.add('constraint-families', f, k, 'no constraint identifies exactly the placements that share a %s%s' % (k, '' if k == 'cell' else ' and a digit'), f.node.lineno)
        for i, p in enumerate(parts):
            if p not in want.values():
                self.add('constraint-families', f, 'constraint %d' % (i + 1), '%s is none of cell, row, column, box' % ast.unparse(exprs[i]), exprs[i].lineno)


def gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def aff_bin_(op, x, y):
    from ..fold import aff_bin
    if isinstance(x, Aff) or isinstance(y, Aff):
        return aff_bin(op, x, y)
    from ..fold import BIN
    return BIN[type(op)](x, y)


def aff_gt(x, y):
    from ..fold import aff_cmp
    return aff_cmp(ast.Gt(), x, y)


def run(ctx, fixture=False):
    return Check(ctx).run()


FIXTURE = 'p10'
EXPECT = [('prime-table', '<module>'), ('prime-table', 'bad_table'), ('prime-rows', 'bad_rows'), ('phi-formula', 'bad_phi'), ('phi-formula', 'bad_phi_guard'),
          ('wheel', 'bad_wheel'), ('wheel', 'bad_wheel_row'), ('residue-rows', 'bad_padding'), ('sieve-range', 'bad_sieve'), ('sieve-range', 'bad_sieve_start'),
          ('square-table', 'bad_is_square'), ('square-table', 'short_is_square'), ('character-table', 'bad_jacobi'), ('exact-exponent', 'bad_root'),
          ('residue-scan', 'bad_scan'), ('constraint-families', 'bad_sudoku'), ('petersen', 'petersen_graph')]
