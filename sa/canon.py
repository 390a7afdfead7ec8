"""Idioms that have several spellings are brought to one before anything is analysed.

    if k in d: d[k] += v  else: d[k] = v        }
    if k not in d: d[k] = 0     d[k] += v       }  d[k] = (d[k] if k in d else 0) + v
    d[k] = d.get(k, 0) + v                      }
    d.setdefault(k, []).append(v)                  if k not in d: d[k] = []     d[k].append(v)
    x = f()  while x is not None: ...  x = f()     while True: x = f()  if x is None: break  ...
    for x in iter(f, None): ...                    the same
    x = sorted(..)  x.sort(..)                     x = sorted(sorted(..), ..)
    x = next((e for v in a if c), d)               x = d  for v in a: if c: x = e; break
    a.__getitem__(b)                               a[b]
    x.sort(..)                                     x = sorted(x, ..)       (x a list of this function's own)
    while True: ... break ... ; return x           while True: ... return x
    try: assert c  except Exception: A             if not c: A
    try: A  except E: log..; raise                 A
    x = x | e   x |= e   x = x.union(e)            x.update(e)      (x a set of this function's own, likewise lists)

Only the spelling changes: keys and containers that are evaluated a different number of times must be plain
(names, attributes, constants, subscripts of these)."""
import ast
import copy


def plain(e):
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return plain(e.value)
    if isinstance(e, ast.Subscript):
        return plain(e.value) and plain(e.slice)
    if isinstance(e, ast.Tuple):
        return all(plain(x) for x in e.elts)
    return False


def dump(e):
    return ast.dump(e).replace('ctx=Store()', 'ctx=Load()').replace('ctx=Del()', 'ctx=Load()')


def same(a, b):
    return dump(a) == dump(b)


def load(e):
    e = copy.deepcopy(e)
    for x in ast.walk(e):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return e


def at(new, old):
    for x in ast.walk(new):
        ast.copy_location(x, old)
    return new


def negated(t):
    """(k, d, inverted) for `k in d` / `k not in d`"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = negated(t.operand)
        return None if r is None else (r[0], r[1], not r[2])
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)):
        return t.left, t.comparators[0], isinstance(t.ops[0], ast.NotIn)
    return None


def place(t):
    """(d, k) of a plain subscript"""
    if isinstance(t, ast.Subscript) and plain(t.value) and plain(t.slice):
        return t.value, t.slice
    return None


LOGS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}


def noise(s):
    """log lines and statements that do nothing"""
    if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        f = s.value.func
        return isinstance(f, ast.Name) and f.id == 'print' or isinstance(f, ast.Attribute) and f.attr in LOGS and isinstance(
            f.value, ast.Name)
    return False


def idle(s, around):
    """noise, or a constant for a name that the statements around it do not use"""
    if noise(s):
        return True
    return isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(
        isinstance(t, ast.Name) and not any(mentions(a, t.id) for a in around) for t in s.targets)


def message(s):
    """a local text for a log line"""
    return isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and all(
        isinstance(c.func, ast.Attribute) and c.func.attr in ('format', 'format_exc', 'join') or
        isinstance(c.func, ast.Name) and c.func.id in ('str', 'repr', 'type', 'len')
        for c in ast.walk(s.value) if isinstance(c, ast.Call)) and not any(
        isinstance(c, (ast.NamedExpr, ast.Await, ast.Yield)) for c in ast.walk(s.value))


def passes_on(h):
    """does a handler only log and raise the same error again?"""
    if not h.body or not all(noise(x) or message(x) for x in h.body[:-1]):
        return False
    r = h.body[-1]
    return isinstance(r, ast.Raise) and r.cause is None and (
        r.exc is None or h.name is not None and isinstance(r.exc, ast.Name) and r.exc.id == h.name)


JUMPS = (ast.Return, ast.Raise, ast.Break, ast.Continue)


def single(body, cls):
    body = [s for s in body if not noise(s)]
    return body[0] if len(body) == 1 and isinstance(body[0], cls) else None


def store(s):
    """(d, k, value) of `d[k] = value`"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        p = place(s.targets[0])
        if p:
            return p[0], p[1], s.value
    return None


def tally(d, k, default, v, old):
    t = ast.Subscript(value=load(d), slice=load(k), ctx=ast.Store())
    has = ast.Compare(left=load(k), ops=[ast.In()], comparators=[load(d)])
    cur = ast.IfExp(test=has, body=ast.Subscript(value=load(d), slice=load(k), ctx=ast.Load()), orelse=default)
    return at(ast.Assign(targets=[t], value=ast.BinOp(left=cur, op=ast.Add(), right=v)), old)


def zero(v):
    return isinstance(v, ast.Constant) and v.value in (0, 0.0) and not isinstance(v.value, bool)


class Canon(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and not n.keywords:
            if f.attr == '__getitem__' and len(n.args) == 1 and not isinstance(f.value, ast.Call):
                return at(ast.Subscript(value=f.value, slice=n.args[0], ctx=ast.Load()), n)
            if f.attr == '__contains__' and len(n.args) == 1 and not isinstance(f.value, ast.Call):
                return at(ast.Compare(left=n.args[0], ops=[ast.In()], comparators=[f.value]), n)
            if f.attr == '__len__' and not n.args and not isinstance(f.value, ast.Call):
                return at(ast.Call(func=ast.Name(id='len', ctx=ast.Load()), args=[f.value], keywords=[]), n)
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            out.extend(self.expand(s))
        i = 0
        while i < len(out):
            r = self.join(out, i)
            if r is None:
                # with the idle statements that follow moved to the front
                k = i + 1
                while k < len(out) and idle(out[k], [out[i]]):
                    k += 1
                if i + 1 < k < len(out):
                    moved = out[:i] + out[i + 1:k] + [out[i]] + out[k:]
                    j = k - 1
                    if all(idle(x, [out[i], out[k]]) for x in out[i + 1:k]):
                        r = self.join(moved, j)
                        if r is not None:
                            out[:], i = moved, j
            if r is not None:
                n, new = r
                out[i:i + n] = new
            else:
                i += 1
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.body(b))
        return n

    def expand(self, s):
        """one statement to its canonical spelling"""
        # a handler that only reports the error and raises it again
        if isinstance(s, ast.Try) and s.handlers and passes_on(s.handlers[-1]):
            hs = list(s.handlers)
            while hs and passes_on(hs[-1]):
                hs.pop()
            if hs:
                s = ast.copy_location(ast.Try(body=s.body, handlers=hs, orelse=s.orelse, finalbody=s.finalbody), s)
            elif s.finalbody:
                s = ast.copy_location(ast.Try(body=s.body + s.orelse, handlers=[], orelse=[], finalbody=s.finalbody), s)
            else:
                return s.body + s.orelse
        # try: assert c  except Exception: A
        if isinstance(s, ast.Try) and len(s.body) == 1 and isinstance(s.body[0], ast.Assert) and plain(s.body[0].test) \
                and len(s.handlers) == 1 and not s.orelse and not s.finalbody and (s.handlers[0].type is None or isinstance(
                    s.handlers[0].type, ast.Name) and s.handlers[0].type.id in ('Exception', 'AssertionError', 'BaseException')) \
                and not any(isinstance(x, ast.Raise) for y in s.handlers[0].body for x in ast.walk(y)):
            h = s.handlers[0]
            if h.name is None or not any(mentions(y, h.name) for y in h.body if not noise(y)):
                # log lines about the error stay readable
                keep = [y for y in h.body if not (h.name is not None and mentions(y, h.name))]
                t = at(ast.UnaryOp(op=ast.Not(), operand=s.body[0].test), s)
                return self.expand(ast.copy_location(ast.If(test=t, body=keep or [at(ast.Pass(), s)], orelse=[]), s))
        # if c: pass  else: A               ->  if not c: A
        if isinstance(s, ast.If) and s.orelse and all(isinstance(x, ast.Pass) for x in s.body):
            s.body, s.orelse = s.orelse, []
            s.test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.test), s.test)
        elif isinstance(s, ast.If) and s.orelse and all(isinstance(x, ast.Pass) for x in s.orelse):
            s.orelse = []
        # if c: ... break  else: rest       ->  if c: ... break      rest
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], JUMPS):
            rest, s.orelse = s.orelse, []
            return self.expand(s) + [y for x in rest for y in self.expand(x)]
        if isinstance(s, ast.If) and s.orelse and isinstance(s.orelse[-1], JUMPS) and not any(isinstance(x, JUMPS) for x in s.body):
            rest, s.body, s.orelse = s.body, s.orelse, []
            s.test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.test), s.test)
            return self.expand(s) + [y for x in rest for y in self.expand(x)]
        # d.setdefault(k, e) as a statement, at the head of a method call or as an assigned value
        tgt = None
        if isinstance(s, ast.Expr):
            v = s.value
            if self.setdefault(v):
                return [self.ifabsent(v, s)]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and self.setdefault(v.func.value):
                tgt = v.func
        elif isinstance(s, ast.Assign) and self.setdefault(s.value):
            d, k = s.value.func.value, s.value.args[0]
            first = self.ifabsent(s.value, s)
            s.value = at(ast.Subscript(value=load(d), slice=load(k), ctx=ast.Load()), s)
            return [first, s]
        elif isinstance(s, (ast.Assign, ast.AugAssign)):
            t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else getattr(s, 'target', None)
            if isinstance(t, ast.Subscript) and self.setdefault(t.value):
                tgt = t
        if tgt is not None:
            c = tgt.value
            d, k = c.func.value, c.args[0]
            first = self.ifabsent(c, s)
            tgt.value = at(ast.Subscript(value=load(d), slice=load(k), ctx=ast.Load()), s)
            return [first, s]
        # counting
        if isinstance(s, ast.If):
            t = negated(s.test)
            if t and plain(t[0]) and plain(t[1]):
                k, d, inv = t
                add, new = (s.orelse, s.body) if inv else (s.body, s.orelse)
                a, w = single(add, ast.AugAssign), single(new, ast.Assign)
                if a is not None and w is not None and isinstance(a.op, ast.Add):
                    p, q = place(a.target), store(w)
                    if p and q and same(p[0], d) and same(p[1], k) and same(q[0], d) and same(q[1], k):
                        if same(a.value, q[2]):
                            return [tally(d, k, at(ast.Constant(value=0), s), a.value, s)]
                        sub = ast.Subscript(value=load(d), slice=load(k), ctx=ast.Load())
                        val = ast.IfExp(test=ast.Compare(left=load(k), ops=[ast.In()], comparators=[load(d)]),
                                        body=ast.BinOp(left=sub, op=ast.Add(), right=a.value), orelse=q[2])
                        return [at(ast.Assign(targets=[w.targets[0]], value=val), s)]
        q = store(s) if isinstance(s, ast.Assign) else None
        if q:
            d, k, v = q
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
                for x, y in ((v.left, v.right), (v.right, v.left)):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and len(x.args) == 2 \
                            and not x.keywords and same(x.func.value, d) and same(x.args[0], k) and zero(x.args[1]):
                        return [tally(d, k, x.args[1], y, s)]
            if isinstance(v, ast.IfExp):
                t = negated(v.test)
                if t and same(t[0], k) and same(t[1], d):
                    a, b = (v.orelse, v.body) if t[2] else (v.body, v.orelse)
                    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add):
                        for x, y in ((a.left, a.right), (a.right, a.left)):
                            if place(x) and same(x.value, d) and same(x.slice, k) and same(y, b):
                                return [tally(d, k, at(ast.Constant(value=0), s), y, s)]
        # x = next((e for v in it if c), d)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
                and s.value.func.id == 'next' and len(s.value.args) == 2 and not s.value.keywords \
                and isinstance(s.value.args[0], ast.GeneratorExp) and len(s.value.args[0].generators) == 1 and plain(s.value.args[1]):
            g, d = s.value.args
            c = g.generators[0]
            x = s.targets[0].id if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
            if (x is None) == isinstance(s, ast.Return) and (x is None or not mentions(g, x)) and not c.is_async:
                def put(v):
                    return at(ast.Return(value=v) if x is None else ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=v), s)
                bound = {n.id: n.id + '_of_next' for n in ast.walk(c.target) if isinstance(n, ast.Name)}
                for part in [c.target, g.elt] + c.ifs:
                    for n in ast.walk(part):
                        if isinstance(n, ast.Name) and n.id in bound:
                            n.id = bound[n.id]
                body = [put(g.elt)] + ([] if x is None else [at(ast.Break(), s)])
                if c.ifs:
                    t = c.ifs[0] if len(c.ifs) == 1 else ast.BoolOp(op=ast.And(), values=c.ifs)
                    body = [ast.copy_location(ast.If(test=ast.copy_location(t, s), body=body, orelse=[]), s)]
                loop = ast.copy_location(ast.For(target=c.target, iter=c.iter, body=body, orelse=[]), s)
                return [loop, put(d)] if x is None else [put(d), loop]
        # for x in iter(f, None)
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
                and s.iter.func.id == 'iter' and len(s.iter.args) == 2 and isinstance(s.target, ast.Name) \
                and isinstance(s.iter.args[1], ast.Constant) and plain(s.iter.args[0]):
            f, c = s.iter.args
            isnone = c.value is None
            get = at(ast.Assign(targets=[s.target], value=ast.Call(func=f, args=[], keywords=[])), s)
            test = at(ast.Compare(left=load(s.target), ops=[ast.Is() if isnone else ast.Eq()], comparators=[c]), s)
            stop = at(ast.If(test=test, body=[ast.Break()], orelse=[]), s)
            return [self.loop([get, stop] + s.body, s)]
        return [s]

    def loop(self, body, old):
        w = ast.While(test=ast.copy_location(ast.Constant(value=True), old), body=body, orelse=[])
        return ast.copy_location(w, old)

    def setdefault(self, v):
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'setdefault' and len(v.args) == 2 \
            and not v.keywords and plain(v.func.value) and plain(v.args[0]) and self.cheap(v.args[1])

    def cheap(self, e):
        return isinstance(e, ast.Constant) or isinstance(e, (ast.List, ast.Tuple, ast.Set)) and all(plain(x) for x in e.elts) \
            or isinstance(e, ast.Dict) and not e.keys or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.args \
            and not e.keywords and e.func.id in ('list', 'dict', 'set')

    def ifabsent(self, c, old):
        d, k, e = c.func.value, c.args[0], c.args[1]
        t = ast.Compare(left=load(k), ops=[ast.NotIn()], comparators=[load(d)])
        a = ast.Assign(targets=[ast.Subscript(value=load(d), slice=load(k), ctx=ast.Store())], value=e)
        return at(ast.If(test=t, body=[a], orelse=[]), old)

    def join(self, out, i):
        """several statements to one: (how many, replacement)"""
        s = out[i]
        n = out[i + 1] if i + 1 < len(out) else None
        if n is None:
            return None
        # if k not in d: d[k] = 0 ; d[k] += v
        if isinstance(s, ast.If) and not s.orelse and isinstance(n, (ast.AugAssign, ast.Assign)):
            t = negated(s.test)
            w = single(s.body, ast.Assign)
            q = store(w) if w is not None else None
            if t and t[2] and q and same(q[0], t[1]) and same(q[1], t[0]) and zero(q[2]):
                if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                    p = place(n.target)
                    if p and same(p[0], q[0]) and same(p[1], q[1]):
                        return 2, [tally(q[0], q[1], q[2], n.value, s)]
                r = store(n) if isinstance(n, ast.Assign) else None
                if r and same(r[0], q[0]) and same(r[1], q[1]) and isinstance(r[2], ast.BinOp) and isinstance(r[2].op, ast.Add):
                    for x, y in ((r[2].left, r[2].right), (r[2].right, r[2].left)):
                        if place(x) and same(x.value, q[0]) and same(x.slice, q[1]):
                            return 2, [tally(q[0], q[1], q[2], y, s)]
        # x = e ; while t(x): ... x = e
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(n, ast.While) \
                and not n.orelse and len(n.body) > 1:
            last = n.body[-1]
            x = s.targets[0].id
            if isinstance(last, ast.Assign) and same(last, s) and isinstance(s.value, ast.Call) and isinstance(n.test, ast.Constant) \
                    and n.test.value and not self.continues(n.body):
                return 2, [self.loop([s] + n.body[:-1], n)]
            if isinstance(last, ast.Assign) and same(last, s) and isinstance(s.value, ast.Call) \
                    and any(isinstance(z, ast.Name) and z.id == x for z in ast.walk(n.test)) and not self.continues(n.body):
                stop = ast.If(test=at(ast.UnaryOp(op=ast.Not(), operand=n.test), n), body=[at(ast.Break(), n)], orelse=[])
                return 2, [self.loop([s, ast.copy_location(stop, n)] + n.body[:-1], n)]
        # loop: ... break ... ; return <constant>
        if isinstance(s, (ast.For, ast.While)) and isinstance(n, ast.Return) and n.value is not None and plain(n.value):
            for b, k in self.stops(s.body):
                b[k] = at(ast.Return(value=copy.deepcopy(n.value)), b[k])
        # x = fresh list ; x.sort(...)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(n, ast.Expr) \
                and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'sort' \
                and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == s.targets[0].id and not n.value.args \
                and self.freshlist(s.value) \
                and not any(isinstance(z, ast.Name) and z.id == s.targets[0].id for k in n.value.keywords for z in ast.walk(k.value)):
            src = s.value
            if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == 'list' and len(src.args) == 1:
                src = src.args[0]
            v = ast.Call(func=ast.Name(id='sorted', ctx=ast.Load()), args=[src], keywords=n.value.keywords)
            ast.copy_location(v, n)
            ast.copy_location(v.func, n)
            return 2, [ast.copy_location(ast.Assign(targets=s.targets, value=v), s)]
        return None

    def freshlist(self, e):
        return isinstance(e, (ast.List, ast.ListComp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
            'list', 'sorted')

    def stops(self, body):
        """the break statements of the loop with this body: [(list, index)]"""
        out = []
        for i, x in enumerate(body):
            if isinstance(x, ast.Break):
                out.append((body, i))
            elif isinstance(x, (ast.For, ast.While)):
                out.extend(self.stops(x.orelse))
            elif not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                for f in ('body', 'orelse', 'finalbody'):
                    out.extend(self.stops(getattr(x, f, []) or []))
                for h in getattr(x, 'handlers', []):
                    out.extend(self.stops(h.body))
        return out

    def continues(self, body):
        todo = list(body)
        while todo:
            x = todo.pop()
            if isinstance(x, ast.Continue):
                return True
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(x))
        return False


SAFE = {'len', 'sorted', 'list', 'set', 'tuple', 'frozenset', 'sum', 'min', 'max', 'any', 'all', 'enumerate', 'zip', 'str', 'print', 'dict',
        'isinstance', 'bool', 'iter', 'range', 'map', 'filter', 'reversed'}


class Own:
    """x = x | e, x |= e, x = x.union(e)   ->  x.update(e)      x = x + e, x += e  ->  x.extend(e)

    where x surely holds a set (list) made in this function and nothing else refers to it."""

    def __init__(self, fn):
        self.fn = fn
        self.paths = []
        self.shared = set()
        self.collect(fn.body, ())
        self.aliases()

    def collect(self, body, path):
        for i, s in enumerate(body):
            here = path + ((body, i),)
            self.paths.append((s, here))
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                self.collect(getattr(s, f, []) or [], here + ((s, f),))
            for h in getattr(s, 'handlers', []):
                self.collect(h.body, here + ((s, 'handler'),))

    def aliases(self):
        def bare(e, out):
            if isinstance(e, ast.Name):
                out.add(e.id)
            elif isinstance(e, (ast.Tuple, ast.List, ast.Set)):
                for x in e.elts:
                    bare(x, out)
            elif isinstance(e, ast.Dict):
                for x in e.values:
                    bare(x, out)
            elif isinstance(e, ast.IfExp):
                bare(e.body, out)
                bare(e.orelse, out)
            elif isinstance(e, (ast.Starred, ast.Yield, ast.Await, ast.NamedExpr)):
                bare(e.value, out) if e.value is not None else None
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Yield)) and n.value is not None:
                bare(n.value, self.shared)
            elif isinstance(n, ast.Call):
                f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                if f in ('append', 'add', 'setdefault', 'insert', 'put', 'appendleft', 'setattr'):
                    for x in n.args:
                        bare(x, self.shared)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.shared.update(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not self.fn:
                self.shared.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name))

    def kind(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return {'set': 'set', 'list': 'list', 'sorted': 'list'}.get(e.func.id)
        return None

    def step(self, s):
        """(name, kind, operand) if s adds to a name"""
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.BitOr, ast.Add)):
            return s.target.id, 'set' if isinstance(s.op, ast.BitOr) else 'list', [s.value]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            x, v = s.targets[0].id, s.value
            if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.BitOr, ast.Add)):
                k = 'set' if isinstance(v.op, ast.BitOr) else 'list'
                if isinstance(v.left, ast.Name) and v.left.id == x and not mentions(v.right, x):
                    return x, k, [v.right]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'union' and isinstance(v.func.value, ast.Name) \
                    and v.func.value.id == x and not v.keywords and v.args and not any(mentions(a, x) or isinstance(a, ast.Starred) for a in v.args):
                return x, 'set', v.args
        return None

    def assigned(self, s, x):
        """[(statement, value or None)] assigning x in s"""
        out = []
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == x:
                        out.append((n, n.value))
                    elif isinstance(t, (ast.Tuple, ast.List)) and mentions(t, x):
                        v = None
                        if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts):
                            for a, b in zip(t.elts, n.value.elts):
                                if isinstance(a, ast.Name) and a.id == x:
                                    v = b
                        if any(isinstance(z, ast.Name) and z.id == x and isinstance(z.ctx, ast.Store) for z in ast.walk(t)):
                            out.append((n, v))
            elif isinstance(n, (ast.For, ast.comprehension)) and mentions(n.target, x) or isinstance(n, ast.withitem) and n.optional_vars is not None \
                    and mentions(n.optional_vars, x) or isinstance(n, ast.ExceptHandler) and n.name == x or isinstance(n, ast.NamedExpr) and n.target.id == x \
                    or isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == x or isinstance(n, ast.Delete) and any(mentions(t, x) for t in n.targets):
                out.append((n, None))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == x:
                out.append((n, None))
        return out

    def fresh(self, s, path, x, kind):
        def grows(n):
            st = self.step(n)
            return st is not None and st[0] == x and st[1] == kind
        for j in range(len(path) - 1, -1, -1):
            q = path[j]
            if isinstance(q[1], str):
                if q[1] == 'handler':
                    return False
                if isinstance(q[0], (ast.For, ast.While)):
                    for n, v in self.assigned(q[0], x):
                        if not grows(n) and not (v is not None and self.kind(v) == kind):
                            return False
                    # other code of the loop must not keep it
                    for n in ast.walk(q[0]):
                        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in SAFE):
                            if any(isinstance(a, ast.Name) and a.id == x for a in list(n.args) + [k.value for k in n.keywords]):
                                return False
                continue
            body, i = q
            for k in range(i - 1, -1, -1):
                b = body[k]
                a = self.assigned(b, x)
                if not a:
                    continue
                if len(a) == 1 and a[0][0] is b:
                    if grows(b):
                        continue
                    return a[0][1] is not None and self.kind(a[0][1]) == kind
                if all(grows(n) for n, v in a):
                    continue
                return False
        return False

    def run(self):
        todo = []
        for s, path in self.paths:
            # x.sort(..)  ->  x = sorted(x, ..)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'sort' \
                    and isinstance(s.value.func.value, ast.Name) and not s.value.args:
                x = s.value.func.value
                if x.id not in self.shared and not any(mentions(k.value, x.id) for k in s.value.keywords) and self.fresh(s, path, x.id, 'list'):
                    v = ast.Call(func=ast.Name(id='sorted', ctx=ast.Load()), args=[x], keywords=s.value.keywords)
                    a = ast.Assign(targets=[ast.Name(id=x.id, ctx=ast.Store())], value=v)
                    for z in (v, v.func, a, a.targets[0]):
                        ast.copy_location(z, s)
                    body, i = path[-1]
                    body[i] = a
                continue
            st = self.step(s)
            if st is not None and st[0] not in self.shared and self.fresh(s, path, st[0], st[1]):
                todo.append((s, path, st))
        for s, path, (x, kind, args) in todo:
            body, i = path[-1]
            if kind == 'set':
                args = [self.bare(a) for a in args]
            c = ast.Call(func=ast.Attribute(value=ast.Name(id=x, ctx=ast.Load()), attr='update' if kind == 'set' else 'extend', ctx=ast.Load()),
                         args=args, keywords=[])
            new = ast.Expr(value=c)
            for z in (new, c, c.func, c.func.value):
                ast.copy_location(z, s)
            body[i] = new
        # set(e) and e.keys() are no different from e as something to add
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and isinstance(n.func.value, ast.Name) \
                    and len(n.args) == 1 and not n.keywords:
                a = n.args[0]
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('set', 'frozenset', 'list') and len(a.args) == 1:
                    n.args = [self.bare(a)]

    def bare(self, a):
        while isinstance(a, ast.Call) and not a.keywords and (
                isinstance(a.func, ast.Name) and a.func.id in ('set', 'frozenset', 'list', 'tuple') and len(a.args) == 1
                or isinstance(a.func, ast.Attribute) and a.func.attr == 'keys' and not a.args):
            a = a.args[0] if isinstance(a.func, ast.Name) else a.func.value
        return a


def mentions(e, x):
    return any(isinstance(n, ast.Name) and n.id == x for n in ast.walk(e))


def canonical(tree):
    tree = ast.fix_missing_locations(Canon().visit(tree))
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            Own(n).run()
    return ast.fix_missing_locations(tree)

