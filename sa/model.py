"""Program model: parses every module of the analysed package and resolves
modules, imports, classes (with MRO), functions and module-level names.

Nothing here imports or executes the analysed code.
"""
import ast
import os
import sys
import warnings

from .canon import canonical


class AnalysisBroken(Exception):
    """The analysed program no longer has the anchor a rule needs."""


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.is_pkg = is_pkg
        self.imports = {}      # local name -> ('mod', modname) | ('from', modname, attr)
        self.star = []         # modules imported with *
        self.functions = {}    # name -> FuncInfo
        self.classes = {}      # name -> ClassInfo
        self.assigns = {}      # name -> list of value exprs (module level)
        self.all_names = set()  # every name bound at module level

    @property
    def relpath(self):
        return self._rel


class ClassInfo:
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.qual = mod.name + '.' + node.name
        self.methods = {}
        self.consts = {}      # class-level assigns: name -> expr
        self.base_exprs = node.bases
        self.bases = []       # resolved ClassInfo
        self.ext_bases = []   # unresolved dotted names
        self._mro = None

    def __repr__(self):
        return '<class %s>' % self.qual

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
            res = [self]
            while any(seqs):
                for s in seqs:
                    if not s:
                        continue
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    break
                res.append(c)
                for t in seqs:
                    if t and t[0] is c:
                        del t[0]
            self._mro = res
        return self._mro

    def find(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_const(self, name):
        for c in self.mro():
            if name in c.consts:
                return c, c.consts[name]
        return None, None

    def is_sub(self, other):
        return other in self.mro()

    def fully_known(self):
        return all(not c.ext_bases for c in self.mro())


class FuncInfo:
    def __init__(self, mod, node, cls=None, outer=None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.outer = outer
        self.name = node.name
        self.qual = (cls.qual if cls else mod.name) + '.' + node.name
        if outer is not None:
            self.qual = outer.qual + '.<locals>.' + node.name
        self.decorators = []
        for d in node.decorator_list:
            self.decorators.append(dotted(d.func if isinstance(d, ast.Call) else d) or '?')

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return 'property' in self.decorators

    @property
    def loc(self):
        return '%s:%d' % (self.mod._rel, self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def defaults(self):
        """name -> default expr"""
        a = self.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        for p, e in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            d[p] = e
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[p.arg] = e
        return d

    def __repr__(self):
        return '<func %s>' % self.qual


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return None if b is None else b + '.' + e.attr
    return None


def static_expr(e, mutable=True):
    """an expression whose value does not depend on when it is evaluated"""
    if isinstance(e, (ast.Constant, ast.Name, ast.expr_context, ast.operator, ast.unaryop, ast.keyword)):
        return not isinstance(e, ast.keyword) or static_expr(e.value, mutable)
    if isinstance(e, (ast.List, ast.Dict, ast.Set)) and not mutable:
        return False
    if isinstance(e, (ast.Tuple, ast.List, ast.Dict, ast.Set, ast.BinOp, ast.UnaryOp, ast.Attribute, ast.JoinedStr, ast.FormattedValue)):
        return all(static_expr(x, mutable) for x in ast.iter_child_nodes(e))
    if isinstance(e, ast.Call):
        d = dotted(e.func) or ''
        if d.startswith('os.path.') or d in ('re.compile', 'frozenset', 'tuple'):
            return all(static_expr(x, True) for x in e.args + e.keywords)
    return False


class Program:
    def __init__(self, root, pkg='nephosem', exclude=('tests',)):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.errors = []
        self.volatile = set()     # globals that another version of the program defines differently
        self._fixed = {}
        self._rebound = None
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken('package directory %s is missing' % base)
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x not in exclude and x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py') or not f[:-3].isidentifier():
                    continue   # not importable as a module
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = canonical(ast.parse(src, rel))
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
                m = Module(name, path, tree, src, is_pkg)
                m._rel = rel
                self.modules[name] = m
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)
                    else:
                        dn = dotted(b)
                        if dn not in ('object',):
                            c.ext_bases.append(dn or '?')
        self._attr_types = {}
        self.funcs = []
        for m in self.modules.values():
            self.funcs.extend(m.functions.values())
            for c in m.classes.values():
                self.funcs.extend(c.methods.values())

    # ---- indexing -----------------------------------------------------
    def _index(self, m):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.functions[s.name] = FuncInfo(m, s)
                    m.all_names.add(s.name)
                elif isinstance(s, ast.ClassDef):
                    c = ClassInfo(m, s)
                    m.classes[s.name] = c
                    m.all_names.add(s.name)
                    for t in s.body:
                        if isinstance(t, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            fi = FuncInfo(m, t, c)
                            if t.name in c.methods and any(d.endswith('.setter') for d in fi.decorators):
                                c.methods.setdefault(t.name + '=setter', fi)
                                continue
                            c.methods[t.name] = fi
                        elif isinstance(t, ast.Assign):
                            for tg in t.targets:
                                if isinstance(tg, ast.Name):
                                    c.consts[tg.id] = t.value
                        elif isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name) and t.value:
                            c.consts[t.target.id] = t.value
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = ('mod', a.name)
                            m.all_names.add(a.asname)
                        else:
                            top = a.name.split('.')[0]
                            m.imports.setdefault(top, ('mod', top))
                            m.all_names.add(top)
                elif isinstance(s, ast.ImportFrom):
                    mod = s.module or ''
                    if s.level:
                        base = m.name.split('.')
                        if not m.is_pkg:
                            base = base[:-1]
                        base = base[:len(base) - (s.level - 1)]
                        mod = '.'.join(base + ([mod] if mod else []))
                    for a in s.names:
                        if a.name == '*':
                            m.star.append(mod)
                        else:
                            nm = a.asname or a.name
                            if nm in m.imports and nm in m.all_names:
                                # alternative import (try/except): keep the first
                                continue
                            m.imports[nm] = ('from', mod, a.name)
                            m.all_names.add(nm)
                elif isinstance(s, ast.Assign):
                    for tg in s.targets:
                        for n in ast.walk(tg):
                            if isinstance(n, ast.Name):
                                m.assigns.setdefault(n.id, []).append(s.value if tg is n else None)
                                m.all_names.add(n.id)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.assigns.setdefault(s.target.id, []).append(s.value)
                    m.all_names.add(s.target.id)
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    m.assigns.setdefault(s.target.id, []).append(None)
                elif isinstance(s, (ast.If, ast.While)):
                    visit(s.body)
                    visit(s.orelse)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                    for h in s.handlers:
                        visit(h.body)
                    visit(s.orelse)
                    visit(s.finalbody)
                elif isinstance(s, (ast.For, ast.With)):
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                m.assigns.setdefault(n.id, []).append(None)
                                m.all_names.add(n.id)
                    visit(s.body)
        visit(m.tree.body)

    # ---- resolution ---------------------------------------------------
    def exported(self, modname, seen=None):
        """names visible through 'from modname import *'"""
        m = self.modules.get(modname)
        if m is None:
            return None
        if '__all__' in m.assigns and m.assigns['__all__'][0] is not None:
            e = m.assigns['__all__'][0]
            if isinstance(e, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in e.elts):
                return {x.value for x in e.elts}
        names = {n for n in m.all_names if not n.startswith('_')}
        for s in m.star:
            if seen and s in seen:
                continue
            sub = self.exported(s, (seen or set()) | {modname})
            if sub:
                names |= sub
        return names

    def lookup(self, modname, name, seen=None):
        """Resolve a module attribute to FuncInfo/ClassInfo/Module/('assign',..)/('ext',dotted)/None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen = seen | {(modname, name)}
        m = self.modules.get(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            k = m.imports[name]
            if k[0] == 'mod':
                return self.modules.get(k[1]) or ('ext', k[1])
            if k[1] in self.modules:
                r = self.lookup(k[1], k[2], seen)
                if r is not None:
                    return r
                sub = k[1] + '.' + k[2]
                if sub in self.modules:
                    return self.modules[sub]
                return None
            return ('ext', k[1] + '.' + k[2])
        if name in m.assigns:
            return ('assign', m, name)
        if modname + '.' + name in self.modules:
            return self.modules[modname + '.' + name]
        for s in m.star:
            ex = self.exported(s)
            if ex is None:
                continue
            if name in ex:
                r = self.lookup(s, name, seen)
                if r is not None:
                    return r
        return None

    def fixed_global(self, m, name):
        """a module-level name that is assigned once, from an expression without effects, and never changed afterwards"""
        k = (m.name, name)
        if k not in self._fixed:
            self._fixed[k] = False
            vals = m.assigns.get(name) or []
            if len(vals) == 1 and vals[0] is not None and name not in self.rebound() and not name.startswith('__'):
                e = vals[0]
                if isinstance(e, (ast.List, ast.Dict, ast.Set)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
                        'set', 'dict', 'list'):
                    parts = [x for x in ast.iter_child_nodes(e)]
                    self._fixed[k] = all(static_expr(x, False) for x in parts) and self.only_read(name)
                else:
                    self._fixed[k] = static_expr(e, False)
        return self._fixed[k]

    def rebound(self):
        if self._rebound is None:
            self._rebound = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Global):
                        self._rebound |= set(n.names)
        return self._rebound

    def only_read(self, name):
        for m in self.modules.values():
            par = None
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and n.attr == name:
                    if par is None:
                        par = {c: p for p in ast.walk(m.tree) for c in ast.iter_child_nodes(p)}
                    p = par.get(n)
                    if isinstance(p, ast.Compare) and n in p.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
                        continue
                    if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load):
                        continue
                    if isinstance(p, ast.Attribute) and p.attr in ('get', 'items', 'keys', 'values', 'index', 'count') and isinstance(
                            par.get(p), ast.Call) and par[p].func is p:
                        continue
                    if isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
                        continue
                    if isinstance(p, ast.Call) and n in p.args and (
                            isinstance(p.func, ast.Name) and p.func.id in ('len', 'sorted', 'list', 'tuple', 'set', 'dict', 'enumerate') or
                            isinstance(p.func, ast.Attribute) and p.func.attr == 'join'):
                        continue
                    if isinstance(n, ast.Attribute) and not isinstance(n.value, ast.Name):
                        continue    # an attribute of something else
                    return False
        return True

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.lookup(b.name, e.attr)
            if isinstance(b, ClassInfo):
                return b.find(e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def cls(self, qual):
        mod, _, name = qual.rpartition('.')
        r = self.lookup(mod, name) if mod in self.modules else None
        if not isinstance(r, ClassInfo):
            # allow the class to have moved to another module of the package
            cands = [c for mm in self.modules.values() for c in mm.classes.values() if c.name == name
                     and '.deprel.' not in c.qual.replace('models.deprel', 'models_deprel')]
            if len(cands) == 1:
                return cands[0]
            raise AnalysisBroken('class %s not found' % qual)
        return r

    def func(self, qual):
        """module.function or module.Class.method"""
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mn = '.'.join(parts[:k])
            if mn in self.modules:
                rest = parts[k:]
                r = self.lookup(mn, rest[0])
                if len(rest) == 1 and isinstance(r, FuncInfo):
                    return r
                if len(rest) == 2 and isinstance(r, ClassInfo):
                    f = r.find(rest[1])
                    if f is not None:
                        return f
                break
        raise AnalysisBroken('function %s not found' % qual)

    def attr_types(self, cls):
        """attr -> ClassInfo for 'self.attr = ClassName(...)' when unique in the class hierarchy."""
        if cls in self._attr_types:
            return self._attr_types[cls]
        found = {}
        for c in cls.mro():
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if not isinstance(n, ast.Assign):
                        continue
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            cands = set()
                            vals = [n.value]
                            if isinstance(n.value, ast.IfExp):
                                vals = [n.value.body, n.value.orelse]
                            if isinstance(n.value, ast.BoolOp):
                                vals = n.value.values
                            for v in vals:
                                if isinstance(v, ast.Call):
                                    r = self.resolve_expr(c.mod, v.func)
                                    if isinstance(r, ClassInfo):
                                        cands.add(r)
                            found.setdefault(t.attr, set()).update(cands)
        res = {k: next(iter(v)) for k, v in found.items() if len(v) == 1}
        self._attr_types[cls] = res
        return res

    def stateful(self, ci):
        """does an instance change after construction (some ordinary method stores into self)?"""
        memo = self.__dict__.setdefault('_stateful', {})
        if ci.qual not in memo:
            memo[ci.qual] = False
            r = False
            for c in ci.mro():
                for f in self.funcs:
                    if f.cls is not c or (f.name.startswith('__') and f.name.endswith('__')) or f.is_property or f.is_static:
                        continue
                    if any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in f.node.decorator_list):
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            b = n
                            while isinstance(b, (ast.Attribute, ast.Subscript)):
                                b = b.value
                            if isinstance(b, ast.Name) and f.params() and b.id == f.params()[0]:
                                r = True
            memo[ci.qual] = r
        return memo[ci.qual]

    def callgraph_callers(self, name):
        pass


def load(root=None):
    return Program(root or os.environ.get('NEPHOSEM_REPO', '/repo'))
