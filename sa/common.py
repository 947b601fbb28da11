"""Shared plumbing of the property checks: API entry points, analysis runs, findings."""
import json
import os
import sys
import time

from .absval import *          # noqa: F401,F403
from .project import Project
from .interp import Interp, EMPTY
from . import specs

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.setrecursionlimit(30000)


class Broken(Exception):
    """the analysis itself is not in a state to give an answer"""


class Finding(object):
    def __init__(self, rule, fn, construct, msg, line=None, path=None):
        self.rule, self.fn, self.construct, self.msg = rule, fn, construct, msg
        self.line = line
        self.path = path or []

    @property
    def where(self):
        return self.fn if isinstance(self.fn, str) else self.fn.fq

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.where, self.construct)

    def text(self):
        s = '%s%s: [%s] %s' % (self.where, '' if self.line is None else ' line %s' % self.line, self.rule, self.msg)
        return s

    def as_dict(self):
        return {'rule': self.rule, 'where': self.where, 'construct': self.construct, 'line': self.line,
                'message': self.msg, 'path': self.path, 'key': self.key}


class Result(object):
    def __init__(self):
        self.findings = []
        self.counts = {}
        self.samples = {}
        self.rules = []
        self.assumptions = []
        self.explanation = ''
        self.exhaustive = None

    def add(self, f):
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, what, limit=40):
        self.samples.setdefault(name, [])
        if len(self.samples[name]) < limit and what not in self.samples[name]:
            self.samples[name].append(what)


class Ctx(object):
    def __init__(self, tier='quick', repo=None, api=None):
        self.tier = tier
        self.proj = Project(repo)
        if self.proj.errors:
            raise Broken('source does not parse: %s' % self.proj.errors)
        self._api = api
        self._runs = {}
        self.failures = {}

    # ---------------------------------------------------------------- entry points
    def api(self):
        """the public functions and methods, as a list of FuncInfo (names are a committed table: helpers added later
        are reached through their callers and are not entry points of their own)"""
        if self._api is not None and not isinstance(self._api, str):
            return self._api
        if self._api == 'all':
            self._api = [f for f in self.proj.functions if f.parent is None and not f.is_lambda]
            return self._api
        d = json.load(open(os.path.join(HERE, 'api.json')))
        out, missing = [], []
        for rel in sorted(d):
            for q in d[rel]:
                f = self.find('%s:%s' % (rel, q))
                if f is None:
                    missing.append('%s:%s' % (rel, q))
                else:
                    out.append(f)
        if len(missing) > 15:
            raise Broken('public names no longer found (table sa/api.json): %s' % ', '.join(missing[:20]))
        self._api = out
        return out

    def find(self, fq):
        """function by 'relpath:qual'; a name that moved is followed through the import in the old module"""
        rel, q = fq.split(':')
        if not hasattr(self, '_byfq'):
            self._byfq = {f.fq: f for f in self.proj.functions}
        f = self._byfq.get(fq)
        if f is not None:
            return f
        for m in self.proj.modules.values():
            if m.relpath == rel or m.relpath == rel[:-3] + '/__init__.py':
                parts = q.split('.')
                r = self.proj.resolve(m, parts[0])
                if r is None:
                    continue
                if r[0] == 'func' and len(parts) == 1:
                    return r[1]
                if r[0] == 'var' and len(parts) == 1:
                    # alias: name = other function
                    v = Interp(self.proj).global_val(r[1], r[2], r[3])
                    for o in v.o:
                        if o.kind == 'func':
                            return o.data
                if r[0] == 'class' and len(parts) == 2:
                    mm = self.proj.find_method(r[1], parts[1])
                    if mm is not None:
                        return mm
                    ca = self.proj.find_class_attr(r[1], parts[1])
                    if ca is not None:
                        import ast
                        if isinstance(ca[1], ast.Name) and ca[1].id in ca[0].methods:
                            return ca[0].methods[ca[1].id]
        return None

    def need(self, fq):
        f = self.find(fq)
        if f is None:
            raise Broken('anchor %s no longer exists' % fq)
        return f

    # ---------------------------------------------------------------- analysis
    def interp(self, mode='summary', hooks=(), **kw):
        I = Interp(self.proj, mode=mode, budget=kw.pop('budget', 10 ** 8), **kw)
        I.hooks.extend(hooks)
        return I

    def run_all(self, I, entries=None, shapes=None):
        """analyse every entry; returns {fn: Run}"""
        out = {}
        for f in (entries if entries is not None else self.api()):
            try:
                out[f] = I.analyze(f, shapes(f) if shapes else None)
            except RecursionError as e:
                self.failures[f.fq] = 'recursion'
            except Exception as e:       # an unsupported construct: counted, never a verdict
                self.failures[f.fq] = '%s: %s' % (type(e).__name__, e)
        return out

    def default(self):
        """(Interp, runs) for every API entry with the documented parameter types"""
        if 'd' not in self._runs:
            I = self.interp()
            I.entry_of = {}
            runs = self.run_all(I)
            self._runs['d'] = (I, runs)
            self.extra = []
            for f in self.api():
                for sh in specs.extra_contexts(I, f):
                    self.extra.append((f, I.analyze(f, sh)))
        return self._runs['d']

    def default_items(self):
        I, runs = self.default()
        return list(runs.items()) + self.extra


def path_str(key):
    """('P', 'self', 'a:_Matrix__entries', 'e') -> self._Matrix__entries[*]"""
    s = str(key[1])
    for p in key[2:]:
        if isinstance(p, str) and p.startswith('a:'):
            s += '.' + p[2:]
        elif p == 'e':
            s += '[*]'
        elif p == 'k':
            s += '{key}'
        else:
            s += '[%s]' % (p,)
    return s


def fix_ctx(name, tier='quick'):
    """analysis context for the positive/negative examples a rule must match on every run"""
    return Ctx(tier, repo=os.path.join(VERIF, 'fixtures', name), api='all')
