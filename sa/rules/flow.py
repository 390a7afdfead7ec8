"""Flow-insensitive dependence of expressions within one function (syntax-level def-use closure),
shared by the encoding and the option-forwarding rules."""
import ast

from ..model import ClassInfo, FuncInfo


class Deps:
    """what the value of an expression may depend on: parameter names, 'self.x' attribute names,
    string constants used as keys, other names"""

    def __init__(self, f, weak=False):
        """weak: a call may also store what it is given in its receiver and its other arguments"""
        self.f = f
        self.me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
        self.pnames = set(f.params()) | set(f.kwonly())
        a = f.node.args
        self.kwarg = a.kwarg.arg if a.kwarg is not None else None
        self.vararg = a.vararg.arg if a.vararg is not None else None
        self.defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self._bind(t, n.value)
            elif isinstance(n, ast.AugAssign):
                self._bind(n.target, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self._bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self._bind(n.target, n.iter)
            elif isinstance(n, ast.NamedExpr):
                self._bind(n.target, n.value)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self._bind(n.optional_vars, n.context_expr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'append', 'add', 'update', 'extend', 'setdefault', 'insert'):
                for x in list(n.args) + [k.value for k in n.keywords]:
                    self._bind(n.func.value, x)
            elif weak and isinstance(n, ast.Call):
                xs = list(n.args) + [k.value for k in n.keywords]
                for t in xs + ([n.func.value] if isinstance(n.func, ast.Attribute) else []):
                    if isinstance(t, (ast.Name, ast.Attribute)):
                        for x in xs:
                            if x is not t:
                                self._bind(t, x)
        # names that only loops bind, with the loops that bind them
        self.loops, other = {}, set(self.pnames)
        mine = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        mine.add(id(x))
                        self.loops.setdefault(x.id, []).append(n)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in mine:
                other.add(n.id)
        self.loops = {k: v for k, v in self.loops.items() if k not in other and len(v) > 1}
        # control dependence of a definition counts as a dependence
        self.ctrl = {}
        self._control(f.node, ())

    def _control(self, node, tests):
        for fld, v in ast.iter_fields(node):
            for x in v if isinstance(v, list) else [v]:
                if not isinstance(x, ast.AST):
                    continue
                t = tests
                if isinstance(node, (ast.If, ast.While, ast.IfExp)) and fld in ('body', 'orelse'):
                    t = tests + (node.test,)
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.ctrl.setdefault(x.id, []).extend(t)
                self._control(x, t)

    def _bind(self, t, v):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            pairs = zip(t.elts, v.elts) if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(
                isinstance(x, ast.Starred) for x in t.elts + v.elts) else [(x, v) for x in t.elts]
            for x, y in pairs:
                self._bind(x, y)
        elif isinstance(t, ast.Starred):
            self._bind(t.value, v)
        elif isinstance(t, ast.Subscript):
            self._bind(t.value, v)
            self._bind(t.value, t.slice)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            self.defs.setdefault(t.value.id + '.' + t.attr, []).append(v)

    def _walk(self, e, ctrl):
        todo = [e]
        while todo:
            n = todo.pop()
            yield n
            for fld, v in ast.iter_fields(n):
                if not ctrl and fld == 'test' or fld == 'ifs' and not ctrl:
                    continue
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.AST):
                        todo.append(x)

    def binder(self, name):
        """the innermost enclosing loop that binds the name"""
        if not hasattr(self, '_par'):
            self._par = {c: p for p in ast.walk(self.f.node) for c in ast.iter_child_nodes(p)}
        x = name
        while x in self._par:
            p = self._par[x]
            gens = p.generators if hasattr(p, 'generators') else [p] if isinstance(p, ast.For) else []
            for g in reversed(gens):
                if g in self.loops[name.id] and x is not getattr(g, 'iter', None):
                    return g
            x = p
        return None

    def around(self, node):
        """what the tests enclosing a node depend on"""
        if not hasattr(self, '_par'):
            self._par = {c: p for p in ast.walk(self.f.node) for c in ast.iter_child_nodes(p)}
        out = set()
        x = node
        while x in self._par:
            p = self._par[x]
            if isinstance(p, (ast.If, ast.While, ast.IfExp)) and x is not p.test:
                out |= self.of(p.test)
            elif isinstance(p, ast.For) and x is not p.iter:
                out |= self.of(p.iter)
            x = p
        return out

    def of(self, e, seen=None, ctrl=True):
        out = set()
        seen = seen if seen is not None else set()
        for n in self._walk(e, ctrl):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self.me:
                key = 'self.' + n.attr
                out.add(key)
                k2 = n.value.id + '.' + n.attr
                if k2 not in seen:
                    seen.add(k2)
                    for v in self.defs.get(k2, ()):
                        out |= self.of(v, seen, ctrl)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in self.pnames or n.id in (self.kwarg, self.vararg):
                    out.add(n.id)
                if n.id in seen:
                    continue
                seen.add(n.id)
                loop = self.binder(n) if n.id in self.loops else None
                for v in self.defs.get(n.id, ()) if loop is None else [loop.iter]:
                    out |= self.of(v, seen, ctrl)
                if ctrl:
                    for v in self.ctrl.get(n.id, ()):
                        out |= self.of(v, seen, ctrl)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(('key', n.value))
        return out


def callees(prog, f, call, loc=None):
    """package functions a call may reach: (FuncInfo, number of leading parameters bound implicitly)"""
    fn = call.func
    out = []
    me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
    if isinstance(fn, ast.Name):
        r = prog.lookup(f.mod.name, fn.id)
        out += _resolve(r)
    elif isinstance(fn, ast.Attribute):
        b = fn.value
        if isinstance(b, ast.Name) and b.id == me and f.cls is not None:
            t = f.cls.find(fn.attr)
            if isinstance(t, FuncInfo):
                out.append((t, 0 if t.is_static else 1))
        elif isinstance(b, ast.Name):
            r = prog.lookup(f.mod.name, b.id)
            if hasattr(r, 'tree') and hasattr(r, 'name'):
                out += _resolve(prog.lookup(r.name, fn.attr))
            elif isinstance(r, ClassInfo):
                t = r.find(fn.attr)
                if isinstance(t, FuncInfo):
                    out.append((t, 1 if t.is_classmethod else 0))
        elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super' and f.cls is not None:
            t = f.cls.find(fn.attr, after=f.cls)
            if isinstance(t, FuncInfo):
                out.append((t, 1))
        head = b
        while isinstance(head, ast.Attribute):
            head = head.value
        if not out and isinstance(head, ast.Name):
            r = prog.lookup(f.mod.name, head.id)
            if isinstance(r, tuple) and r and r[0] == 'ext':
                return out
        if not out:
            cands = [g for g in prog.funcs if g.name == fn.attr and g.cls is not None]
            if len(cands) == 1 and not any(hasattr(t, fn.attr) for t in (str, list, dict, set, object)):
                out += [(g, 0 if g.is_static else 1) for g in cands]
    return out


def _resolve(r):
    if isinstance(r, ClassInfo):
        t = r.find('__init__')
        return [(t, 1)] if isinstance(t, FuncInfo) else []
    if isinstance(r, FuncInfo):
        return [(r, 0)]
    return []


def argmap(g, skip, call):
    """parameter -> argument expression, and whether starred arguments hide some"""
    ps = g.params()[skip:]
    m, hidden = {}, False
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            hidden = True
            break
        if i < len(ps):
            m[ps[i]] = a
    for k in call.keywords:
        if k.arg is None:
            hidden = True
        else:
            m[k.arg] = k.value
    return m, hidden
