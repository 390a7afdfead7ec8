"""Reads of a local variable that no path has assigned before (always an UnboundLocalError).

May-assignment over the statement structure: `done` over-approximates what can have been bound when a statement
starts (loops add everything their body binds, handlers everything the protected block binds), so a reported read
fails on every execution that reaches it.  Reads in nested functions, lambdas and generator bodies are not judged."""
import ast

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def bound(node, out=None):
    """names bound by a statement or expression in its own scope"""
    out = set() if out is None else out
    todo = [node]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, COMPS):
            todo.extend(x for x in ast.walk(n) if isinstance(x, ast.NamedExpr))
            continue
        if isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split('.')[0] for a in n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif type(n).__name__ in ('MatchAs', 'MatchStar') and n.name:
            out.add(n.name)
        elif type(n).__name__ == 'MatchMapping' and n.rest:
            out.add(n.rest)
        todo.extend(ast.iter_child_nodes(n))
    return out


class Scan:
    def __init__(self, fn):
        self.fn = fn
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.params |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        self.locals = set()
        for s in fn.body:
            bound(s, self.locals)
        self.other = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.other.update(n.names)
        self.locals -= self.other | self.params
        self.bad = []

    def run(self):
        self.block(self.fn.body, set())
        return self.bad

    def expr(self, e, done):
        if e is None:
            return
        if isinstance(e, SCOPES):
            for d in getattr(e, 'decorator_list', []):
                self.expr(d, done)
            if isinstance(e, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                    self.expr(d, done)
            return
        if isinstance(e, COMPS):
            self.expr(e.generators[0].iter, done)
            if isinstance(e, ast.GeneratorExp):
                return
            own = set()
            for g in e.generators:
                own |= bound(g.target)
            d = done | own | bound(e)
            for g in e.generators[1:]:
                self.expr(g.iter, d)
            for g in e.generators:
                for c in g.ifs:
                    self.expr(c, d)
            for f in ('elt', 'key', 'value'):
                if hasattr(e, f):
                    self.expr(getattr(e, f), d)
            done |= bound(e)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in done:
                self.bad.append((e.id, e.lineno))
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, done)
            done.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, done)

    def block(self, body, done):
        for s in body:
            self.stmt(s, done)

    def stmt(self, s, done):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.expr(s, done)
            done.add(s.name)
        elif isinstance(s, ast.Assign):
            self.expr(s.value, done)
            for t in s.targets:
                self.expr(t, done)
                bound(t, done)
        elif isinstance(s, ast.AnnAssign):
            self.expr(s.value, done)
            self.expr(s.target, done)
            if s.value is not None:
                bound(s.target, done)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in done:
                self.bad.append((s.target.id, s.lineno))
            self.expr(s.value, done)
            self.expr(s.target, done)
            bound(s.target, done)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, done)
            for x in [s.target] + s.body:
                bound(x, done)
            self.expr(s.target, done)
            self.block(s.body, done)
            self.block(s.orelse, done)
        elif isinstance(s, ast.While):
            self.expr(s.test, done)
            for x in s.body:
                bound(x, done)
            self.block(s.body, done)
            self.block(s.orelse, done)
        elif isinstance(s, ast.If):
            self.expr(s.test, done)
            a, b = set(done), set(done)
            self.block(s.body, a)
            self.block(s.orelse, b)
            done |= a | b
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, done)
                if i.optional_vars is not None:
                    self.expr(i.optional_vars, done)
                    bound(i.optional_vars, done)
            self.block(s.body, done)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            self.block(s.body, done)
            out = set(done)
            for h in s.handlers:
                d = set(done)
                self.expr(h.type, d)
                if h.name:
                    d.add(h.name)
                self.block(h.body, d)
                out |= d
            self.block(s.orelse, done)
            done |= out
            self.block(s.finalbody, done)
        elif type(s).__name__ == 'Match':
            self.expr(s.subject, done)
            out = set(done)
            for c in s.cases:
                d = set(done)
                bound(c.pattern, d)
                self.expr(c.guard, d)
                self.block(c.body, d)
                out |= d
            done |= out
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            bound(s, done)
        else:
            for c in ast.iter_child_nodes(s):
                self.expr(c, done)
            bound(s, done)


def unbound_reads(fn):
    """[(name, line)] of reads that fail whenever they are reached"""
    out, seen = [], set()
    for n, l in Scan(fn).run():
        if (n, l) not in seen:
            seen.add((n, l))
            out.append((n, l))
    return out
