"""Whole-program source model: modules, functions, classes, imports of the library under /repo.

Nothing is imported or executed; everything is read from the current working tree with `ast`.
"""
import ast
import hashlib
import os
import builtins as _b

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'rosemary'


class FuncInfo(object):
    __slots__ = ('name', 'qual', 'node', 'module', 'cls', 'parent', 'params', 'vararg', 'kwarg',
                 'kwonly', 'defaults', 'is_gen', 'locals', 'decorators', 'nonlocals', 'globals_', 'uid',
                 'is_lambda', 'children')

    def __repr__(self):
        return self.fq

    @property
    def fq(self):
        return '%s:%s' % (self.module.relpath, self.qual)


class ClassInfo(object):
    __slots__ = ('name', 'node', 'module', 'bases', 'methods', 'attrs', 'qual', 'slots')

    def __repr__(self):
        return '<class %s>' % self.name


class Module(object):
    __slots__ = ('name', 'path', 'relpath', 'tree', 'src', 'symbols', 'functions', 'classes', 'is_pkg', 'assigned', 'noqa')

    def __repr__(self):
        return '<module %s>' % self.name


def _scan_locals(fnode):
    """names bound in the function's own scope"""
    out, nonloc, glob = set(), set(), set()
    is_gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                walk(d)
            return
        if isinstance(n, ast.ClassDef):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension targets are scoped to the comprehension; walrus leaks
            for c in n.generators:
                walk(c.iter)
                for i in c.ifs:
                    walk(i)
            if isinstance(n, ast.DictComp):
                walk(n.key)
                walk(n.value)
            else:
                walk(n.elt)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen[0] = True
        if isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.withitem):
            if n.optional_vars is not None:
                target(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    for s in body:
        walk(s)
    return out - nonloc - glob, nonloc, glob, is_gen[0]


class Project(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.functions = []
        self.classes = []
        self.func_of_node = {}
        self.errors = []
        self._load()

    # ------------------------------------------------------------------
    def _load(self):
        base = os.path.join(self.repo, PKG)
        h = hashlib.sha256()
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ('__pycache__', 'tests') and not d.startswith('.'))
            for f in sorted(files):
                if not f.endswith('.py') or f.startswith('test_'):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.repo)
                with open(p, 'rb') as fh:
                    raw = fh.read()
                h.update(rel.encode() + b'\0' + raw)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = name.endswith('.__init__')
                if is_pkg:
                    name = name[:-9]
                m = Module()
                m.name, m.path, m.relpath, m.is_pkg = name, p, rel, is_pkg
                m.src = raw.decode('utf-8')
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    m.tree = ast.parse(m.src, rel)
                m.symbols, m.functions, m.classes, m.assigned = {}, {}, {}, {}
                self.modules[name] = m
        self.digest = h.hexdigest()
        if not self.modules:
            raise RuntimeError('no modules found under %s' % base)
        for m in self.modules.values():
            self._collect(m)

    def add_source(self, name, src):
        """a module that is not part of the library: analysis scenarios (never executed, only interpreted abstractly)"""
        m = Module()
        m.name, m.path, m.relpath, m.is_pkg = name, None, name.replace('.', '/') + '.py', False
        m.src, m.tree = src, ast.parse(src)
        m.symbols, m.functions, m.classes, m.assigned = {}, {}, {}, {}
        self.modules[name] = m
        self._collect(m)
        return m

    def _mkfunc(self, node, m, cls, parent, prefix):
        fi = FuncInfo()
        fi.is_lambda = isinstance(node, ast.Lambda)
        fi.name = '<lambda>' if fi.is_lambda else node.name
        fi.qual = prefix + fi.name
        fi.node, fi.module, fi.cls, fi.parent = node, m, cls, parent
        a = node.args
        fi.params = [x.arg for x in a.posonlyargs + a.args]
        fi.vararg = a.vararg.arg if a.vararg else None
        fi.kwarg = a.kwarg.arg if a.kwarg else None
        fi.kwonly = [x.arg for x in a.kwonlyargs]
        fi.defaults = {}
        for nme, d in zip(fi.params[len(fi.params) - len(a.defaults):], a.defaults):
            fi.defaults[nme] = d
        for nme, d in zip(fi.kwonly, a.kw_defaults):
            if d is not None:
                fi.defaults[nme] = d
        loc, nl, gl, gen = _scan_locals(node)
        fi.locals = loc | set(fi.params) | set(fi.kwonly) | {x for x in (fi.vararg, fi.kwarg) if x}
        fi.nonlocals, fi.globals_, fi.is_gen = nl, gl, gen
        fi.decorators = [] if fi.is_lambda else list(node.decorator_list)
        fi.uid = len(self.functions)
        fi.children = []
        self.functions.append(fi)
        self.func_of_node[node] = fi
        if parent is not None:
            parent.children.append(fi)
        # nested functions
        self._nested(node.body if isinstance(node.body, list) else [node.body], m, fi, fi.qual + '.<locals>.')
        return fi

    def _nested(self, body, m, fi, prefix):
        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                self._mkfunc(n, m, None, fi, prefix)
                if isinstance(n, ast.FunctionDef):
                    for d in n.decorator_list:
                        walk(d)
                for d in n.args.defaults:
                    walk(d)
                return
            for c in ast.iter_child_nodes(n):
                walk(c)
        for s in body:
            walk(s)

    def _collect(self, m):
        def stmts(body):
            for n in body:
                yield n
                if isinstance(n, (ast.If,)):
                    for x in stmts(n.body + n.orelse):
                        yield x
                elif isinstance(n, ast.Try):
                    for x in stmts(n.body + n.orelse + n.finalbody + [s for hh in n.handlers for s in hh.body]):
                        yield x
                elif isinstance(n, (ast.For, ast.While, ast.With)):
                    for x in stmts(n.body):
                        yield x
        for n in stmts(m.tree.body):
            if isinstance(n, ast.FunctionDef):
                fi = self._mkfunc(n, m, None, None, '')
                m.functions[n.name] = fi
                m.symbols[n.name] = ('func', fi)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo()
                ci.name, ci.node, ci.module, ci.qual = n.name, n, m, n.name
                ci.bases = n.bases
                ci.methods, ci.attrs, ci.slots = {}, {}, None
                for s in n.body:
                    if isinstance(s, ast.FunctionDef):
                        ci.methods[s.name] = self._mkfunc(s, m, ci, None, n.name + '.')
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                ci.attrs[t.id] = s.value
                                if isinstance(s.value, ast.Name) and s.value.id in ci.methods:
                                    ci.methods[t.id] = ci.methods[s.value.id]
                    elif isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                        ci.attrs.setdefault(s.target.id, None)
                m.classes[n.name] = ci
                self.classes.append(ci)
                m.symbols[n.name] = ('class', ci)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.symbols[a.asname] = ('mod', a.name)
                    else:
                        m.symbols[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                src = n.module or ''
                if n.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    src = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    m.symbols[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        # alias of function?
                        if isinstance(n.value, ast.Name) and m.symbols.get(n.value.id, ('',))[0] in ('func', 'class', 'from'):
                            m.symbols[t.id] = m.symbols[n.value.id]
                            m.assigned[t.id] = n.value
                        else:
                            m.symbols[t.id] = ('var', n.value)
                            m.assigned[t.id] = n.value
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                m.symbols[e.id] = ('var', None)
                                m.assigned[e.id] = None
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name):
                m.symbols.setdefault(n.target.id, ('var', n.value))
            elif isinstance(n, (ast.For,)) and isinstance(n.target, ast.Name):
                m.symbols.setdefault(n.target.id, ('var', None))
            elif isinstance(n, ast.With):
                for w in n.items:
                    if isinstance(w.optional_vars, ast.Name):
                        m.symbols.setdefault(w.optional_vars.id, ('var', None))

    # ------------------------------------------------------------------
    def resolve(self, m, name, seen=None):
        """resolve a global name in module m -> ('func',fi)|('class',ci)|('lib',modname)|('ext',modname)|
        ('extattr',mod,name)|('var',module,name,valuenode)|('builtin',name)|None"""
        seen = seen or set()
        if (m.name, name) in seen:
            if m.is_pkg and (m.name + '.' + name) in self.modules:
                return ('lib', m.name + '.' + name)
            return None
        seen.add((m.name, name))
        s = m.symbols.get(name)
        if s is None:
            # submodule of a package (only if package)
            if m.is_pkg and (m.name + '.' + name) in self.modules:
                return ('lib', m.name + '.' + name)
            if hasattr(_b, name):
                return ('builtin', name)
            if name in ('__name__', '__file__', '__doc__'):
                return ('builtin', name)
            return None
        if s[0] == 'func':
            return ('func', s[1])
        if s[0] == 'class':
            return ('class', s[1])
        if s[0] == 'mod':
            return ('lib', s[1]) if s[1] in self.modules else ('ext', s[1])
        if s[0] == 'from':
            _, src, orig = s
            if src in self.modules:
                r = self.modattr(src, orig, seen)
                return r
            if src.split('.')[0] == PKG:
                return None
            return ('extattr', src, orig)
        if s[0] == 'var':
            return ('var', m, name, s[1])
        return None

    def modattr(self, modname, attr, seen=None):
        """attribute of a library module object"""
        m = self.modules[modname]
        full = modname + '.' + attr
        if attr in m.symbols:
            r = self.resolve(m, attr, seen)
            if r is not None:
                return r
        if full in self.modules:
            return ('lib', full)
        return None

    def mro(self, ci):
        out = [ci]
        for b in ci.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(ci.module, b.id)
            elif isinstance(b, ast.Attribute):
                r = None
            if r and r[0] == 'class':
                out.extend(self.mro(r[1]))
        return out

    def has_unknown_base(self, ci):
        for c in self.mro(ci):
            for b in c.bases:
                r = self.resolve(c.module, b.id) if isinstance(b, ast.Name) else None
                if r is None or (r[0] == 'builtin' and r[1] != 'object') or r[0] in ('extattr', 'var'):
                    return True
        return False

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def func_by_fq(self, fq):
        for f in self.functions:
            if f.fq == fq:
                return f
        return None

    def toplevel(self, fi):
        while fi.parent is not None:
            fi = fi.parent
        return fi

    def mangle(self, cls, attr):
        if cls is not None and attr.startswith('__') and not attr.endswith('__'):
            return '_%s%s' % (cls.name.lstrip('_'), attr)
        return attr
