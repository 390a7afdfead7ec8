"""Edits confined to one place.

When the reviewed and the current instance of a function agree except in one region of the
syntax tree, nothing elsewhere in the function can compensate for the change: the two functions
differ exactly when the two regions differ as transformers of the local state (values of the local
names that are read elsewhere, effects, exits).  The regions are compared as functions of the local
names, each taken as an arbitrary value - a much smaller question than the whole function.
"""
import ast
import copy
import difflib
import time

from .model import FuncInfo
from .equiv import Cmp, Budget, EQ, DIFF, UNK

LOGS = {'logger', 'logging', 'print', 'pbar', 'progress'}


class Region:
    __slots__ = ('kind', 'a', 'b', 'inloop', 'tail')

    def __init__(self, kind, a, b, inloop, tail):
        self.kind, self.a, self.b, self.inloop = kind, a, b, inloop
        self.tail = tail        # 'func' / 'loop': nothing follows in the function / in the body of the loop

    def __repr__(self):
        def u(x):
            return '; '.join(ast.unparse(s) for s in x) if isinstance(x, list) else ast.unparse(x)
        return '<%s %s -> %s>' % (self.kind, u(self.a), u(self.b))


def is_log(s):
    if not isinstance(s, ast.Expr):
        return False
    v = s.value
    if isinstance(v, ast.Constant):
        return True
    while isinstance(v, ast.Call):
        v = v.func
        while isinstance(v, ast.Attribute):
            v = v.value
    return isinstance(v, ast.Name) and v.id in LOGS


class _Strip(ast.NodeTransformer):
    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, [s for s in b if not is_log(s) and not isinstance(s, ast.Pass)])
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        return self.generic_visit(node)


def stripped(node):
    return _Strip().visit(copy.deepcopy(node))


def dump(n):
    if isinstance(n, list):
        return tuple(dump(x) for x in n)
    return ast.dump(n)


STMTS = ('body', 'orelse', 'finalbody', 'handlers')


def leaving(stmts):
    """how often these statements leave their block: by return, or by continue/break of a loop around them"""
    n = [0, 0, 0]

    def go(x, depth):
        for c in ast.iter_child_nodes(x):
            one(c, depth)

    def one(c, depth):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(c, ast.Return):
            n[0] += 1
        elif isinstance(c, ast.Continue) and not depth:
            n[1] += 1
        elif isinstance(c, ast.Break) and not depth:
            n[2] += 1
        go(c, depth + isinstance(c, (ast.For, ast.While)))
    for s in stmts:
        one(s, 0)
    return n


def diff_list(sa, sb, loop, out, tail=None):
    da, db = [dump(x) for x in sa], [dump(x) for x in sb]
    if da == db:
        return
    i = 0
    while i < len(da) and i < len(db) and da[i] == db[i]:
        i += 1
    j = 0
    while j < len(da) - i and j < len(db) - i and da[-1 - j] == db[-1 - j]:
        j += 1
    if j and leaving(sa[i:len(sa) - j]) != leaving(sb[i:len(sb) - j]):
        # an exit on one side only decides whether the rest of the block runs: the rest belongs to the region
        ma, mb = sa[i:len(sa) - j], sb[i:len(sb) - j]
        if not (len(ma) == len(mb) == 1 and type(ma[0]) is type(mb[0]) and isinstance(ma[0], (ast.For, ast.While))):
            out.append(Region('stmts', sa[i:], sb[i:], loop, tail))
            return
    ma, mb = sa[i:len(sa) - j], sb[i:len(sb) - j]
    if j:
        tail = None
    if len(ma) == len(mb) == 1:
        diff_stmt(ma[0], mb[0], loop, out, tail)
        return
    if not ma or not mb or sorted(da[i:len(sa) - j]) == sorted(db[i:len(sb) - j]):
        out.append(Region('stmts', ma, mb, loop, tail))
        return
    sm = difflib.SequenceMatcher(None, da[i:len(sa) - j], db[i:len(sb) - j], autojunk=False)
    ops = [o for o in sm.get_opcodes() if o[0] != 'equal']
    if len(ops) > 1 and all(o[0] == 'replace' and o[2] - o[1] == o[4] - o[3] == 1 for o in ops):
        for _, a1, a2, b1, b2 in ops:
            diff_stmt(ma[a1], mb[b1], loop, out, tail if a2 == len(ma) else None)
        return
    if len(ma) == len(mb):
        ps = [(x, y) for x, y in zip(ma, mb) if dump(x) != dump(y)]
        if all(type(x) is type(y) for x, y in ps):
            sub = []
            for x, y in ps:
                diff_stmt(x, y, loop, sub, tail if x is ma[-1] else None)
            if len(sub) == 1:
                out.extend(sub)
                return
    out.append(Region('stmts', ma, mb, loop, tail))


def diff_stmt(x, y, loop, out, tail=None):
    if type(x) is not type(y) or isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
        out.append(Region('stmts', [x], [y], loop, tail))
        return
    sub, heads = [], False
    for f in x._fields:
        a, b = getattr(x, f), getattr(y, f)
        if f in ('body', 'orelse', 'finalbody') and isinstance(a, list):
            if dump(a) != dump(b):
                lp = loop or (isinstance(x, (ast.For, ast.While)) and f == 'body')
                if not a or not b:
                    sub.append(Region('stmts', [x], [y], loop, tail))
                else:
                    diff_list(a, b, lp, sub, 'loop' if isinstance(x, (ast.For, ast.While)) and f == 'body' else
                              tail if isinstance(x, (ast.If, ast.With)) else None)
        elif f == 'handlers':
            if dump(a) != dump(b):
                sub.append(Region('stmts', [x], [y], loop, tail))
        else:
            da = dump(a) if isinstance(a, (ast.AST, list)) else repr(a)
            db = dump(b) if isinstance(b, (ast.AST, list)) else repr(b)
            if da != db:
                heads = True
                hf = (f, a, b)
    if not heads:
        out.extend(sub)
        return
    if not sub and isinstance(x, (ast.If, ast.While)) and hf[0] == 'test' or isinstance(x, ast.For) and hf[0] == 'iter' and not sub \
            and dump(x.target) == dump(y.target):
        out.append(Region('head', [x], [y], loop, tail))
        return
    out.append(Region('stmts', [x], [y], loop, tail))


def regions(fa, fb):
    out = []
    diff_list(fa.body, fb.body, False, out, 'func')
    return out


def hull(fa, fb):
    """the smallest run of statements of one block that holds every difference"""
    def block(sa, sb, loop, tail):
        da, db = [dump(x) for x in sa], [dump(x) for x in sb]
        i = 0
        while i < len(da) and i < len(db) and da[i] == db[i]:
            i += 1
        j = 0
        while j < len(da) - i and j < len(db) - i and da[-1 - j] == db[-1 - j]:
            j += 1
        ma, mb = sa[i:len(sa) - j], sb[i:len(sb) - j]
        if j:
            tail = None
        if len(ma) == len(mb) == 1 and type(ma[0]) is type(mb[0]) and isinstance(ma[0], (ast.For, ast.While, ast.If, ast.With, ast.Try)):
            x, y = ma[0], mb[0]
            fs = [f for f in x._fields if (dump(getattr(x, f)) if isinstance(getattr(x, f), (ast.AST, list)) else repr(getattr(x, f))) !=
                  (dump(getattr(y, f)) if isinstance(getattr(y, f), (ast.AST, list)) else repr(getattr(y, f)))]
            if len(fs) == 1 and fs[0] in ('body', 'orelse', 'finalbody') and getattr(x, fs[0]) and getattr(y, fs[0]):
                inl = isinstance(x, (ast.For, ast.While)) and fs[0] == 'body'
                return block(getattr(x, fs[0]), getattr(y, fs[0]), loop or inl,
                             'loop' if inl else tail if isinstance(x, (ast.If, ast.With)) else None)
        return Region('stmts', ma, mb, loop, tail)
    return block(fa.body, fb.body, False, 'func')


def touched(stmts):
    """names whose value or contents these statements may change"""
    out = assigned(stmts)
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                for e in [n.func] + list(n.args) + [k.value for k in n.keywords]:
                    for m in ast.walk(e):
                        if isinstance(m, ast.Name):
                            out.add(m.id)
                        elif isinstance(m, ast.Attribute):
                            out.add('.' + m.attr)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name):
                        out.add(m.id)
                    elif isinstance(m, ast.Attribute):
                        out.add('.' + m.attr)
    return out


def spread(names, nodes):
    """names that may depend on the given ones through any assignment of the functions"""
    flows = []
    for base in nodes:
        for n in ast.walk(base):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and getattr(n, 'value', None) is not None:
                t = n.targets if isinstance(n, ast.Assign) else [n.target]
                flows.append((loaded(n.value), {m.id for x in t for m in ast.walk(x) if isinstance(m, ast.Name)}))
            elif isinstance(n, (ast.For, ast.comprehension)):
                flows.append((loaded(n.iter), {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}))
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                flows.append((loaded(n.context_expr), {m.id for m in ast.walk(n.optional_vars) if isinstance(m, ast.Name)}))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
                flows.append((loaded(n.value), {m.id for m in ast.walk(n.value.func) if isinstance(m, ast.Name)}))
    out = set(names)
    while True:
        new = set()
        for src, dst in flows:
            if src & out:
                new |= dst - out
        if not new:
            return out
        out |= new


EXITS = (ast.Return, ast.Raise, ast.Break, ast.Continue)


def independent(g, h, nodes):
    """neither edit can make up for the other"""
    sg, sh = g.a + g.b, h.a + h.b
    if any(isinstance(n, EXITS) for s in sg + sh for n in ast.walk(s)):
        if g.kind != 'head' or h.kind != 'head':
            if any(isinstance(n, EXITS) for x, k in ((sg, g), (sh, h)) if k.kind != 'head' for s in x for n in ast.walk(s)):
                return False
    wg, wh = part(g, touched), part(h, touched)
    rg, rh = part(g, lambda ss: set().union(*[loaded(s) for s in ss])), part(h, lambda ss: set().union(*[loaded(s) for s in ss]))
    ag, ah = part(g, attrs), part(h, attrs)
    own = lambda w: {x for x in w if not x.startswith('.')}
    if own(wg) & own(wh) or spread(own(wg), nodes) & rh or spread(own(wh), nodes) & rg:
        return False
    return not (wg & ah or wh & ag)


def attrs(stmts):
    return {'.' + m.attr for s in stmts for m in ast.walk(s) if isinstance(m, ast.Attribute)}


def part(g, f):
    """f over the part of the statements that differs"""
    if g.kind == 'head':
        x, y = g.a[0], g.b[0]
        k = 'iter' if isinstance(x, ast.For) else 'test'
        ws = [ast.copy_location(ast.Expr(getattr(x, k)), x), ast.copy_location(ast.Expr(getattr(y, k)), y)]
        return f(ws)
    return f(g.a + g.b)


# ------------------------------------------------------------------ expression pairs
def expr_chain(x, y):
    """pairs of sub-expressions, outermost first, such that x and y agree outside the last pair"""
    out = []
    while True:
        if isinstance(x, ast.expr):
            out.append((x, y))
        if type(x) is not type(y):
            return out
        ch = []
        for f in x._fields:
            a, b = getattr(x, f), getattr(y, f)
            if isinstance(a, list) and isinstance(b, list):
                if len(a) != len(b):
                    return out
                for p, q in zip(a, b):
                    if isinstance(p, ast.AST) and isinstance(q, ast.AST):
                        if dump(p) != dump(q):
                            ch.append((p, q))
                    elif p != q:
                        return out
            elif isinstance(a, ast.AST) and isinstance(b, ast.AST):
                if dump(a) != dump(b):
                    ch.append((a, b))
            elif a != b:
                return out
        if len(ch) != 1 or not isinstance(ch[0][0], (ast.expr, ast.keyword, ast.comprehension, ast.slice)):
            return out
        x, y = ch[0]


# ------------------------------------------------------------------ synthetic functions
def stored(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out.update((al.asname or al.name).split('.')[0] for al in x.names)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
    return out


def assigned(stmts):
    """names bound at the level of the function by these statements"""
    out = set()

    def go(n):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in stmts:
        go(s)
    return out


def loaded(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


class _Exits(ast.NodeTransformer):
    def __init__(self, live, tail):
        self.live = live
        self.tail = tail
        self.depth = 0

    def tup(self, tag, node, extra):
        els = [ast.Constant(tag)] + extra
        return ast.copy_location(ast.Return(ast.Tuple(els, ast.Load())), node)

    def names(self):
        return [ast.Name(n, ast.Load()) for n in self.live]

    def visit_For(self, node):
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        node.orelse = [self.visit(s) for s in node.orelse]
        return node

    visit_While = visit_For

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Break(self, node):
        return node if self.depth else self.tup('__break__', node, self.names())

    def visit_Continue(self, node):
        return node if self.depth else self.tup('__next__' if self.tail == 'loop' else '__continue__', node, self.names())

    def visit_Return(self, node):
        return self.tup('__ret__', node, [node.value or ast.Constant(None)])


def exposed(stmts):
    """names that may be read before these statements bind them"""
    out = set()

    def ex(e, d):
        if e is not None:
            out.update(loaded(e) - d)

    def go(ss, d):
        d = set(d)
        for s in ss:
            if isinstance(s, ast.Assign):
                ex(s.value, d)
                for t in s.targets:
                    ex(t, d)
                d |= assigned([s])
            elif isinstance(s, ast.AugAssign):
                ex(s.value, d)
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name) and n.id not in d:
                        out.add(n.id)
                d |= assigned([s])
            elif isinstance(s, ast.If):
                ex(s.test, d)
                a, b = go(s.body, d), go(s.orelse, d)
                d = b if leaves(s.body) else a if leaves(s.orelse) else a & b
            elif isinstance(s, ast.For):
                ex(s.iter, d)
                go(s.body, d | assigned([ast.Assign(targets=[s.target], value=s.iter)]))
                go(s.orelse, d)
            elif isinstance(s, ast.While):
                ex(s.test, d)
                go(s.body, d)
                go(s.orelse, d)
            elif isinstance(s, ast.With):
                for w in s.items:
                    ex(w.context_expr, d)
                    if w.optional_vars is not None:
                        d |= assigned([w.optional_vars])
                d = go(s.body, d)
            elif isinstance(s, ast.Try):
                go(s.body, d)
                for h in s.handlers:
                    go(h.body, d | ({h.name} if h.name else set()))
                go(s.orelse, d)
                go(s.finalbody, d)
            else:
                ex(s, d)
                d |= assigned([s])
        return d
    go(stmts, set())
    return out


def leaves(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


PURE = (ast.Name, ast.Attribute, ast.Constant, ast.Subscript, ast.Slice, ast.UnaryOp, ast.BinOp, ast.Tuple, ast.Load, ast.operator,
        ast.unaryop, ast.Compare, ast.cmpop, ast.BoolOp, ast.boolop, ast.IfExp)


def plain(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'set', 'list', 'tuple', 'sorted', 'bool', 'int', 'str', 'range')
                    or isinstance(x.func, ast.Attribute) and x.func.attr in ('keys', 'values', 'items', 'get', 'format', 'join', 'copy')):
                return False
        elif not isinstance(x, PURE):
            return False
    return True


def fresh(e):
    """does the definition make a new container (whose later changes a region without its other uses would hide)?"""
    return any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ('set', 'list', 'sorted')
                                            or isinstance(x.func, ast.Attribute) and x.func.attr == 'copy') for x in ast.walk(e))


def made(e):
    return isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)) or isinstance(e, ast.Call) and isinstance(
        e.func, ast.Name) and e.func.id in ('dict', 'list', 'set', 'defaultdict', 'deque', 'OrderedDict', 'Counter')


def only_read(name, stmts):
    """every use of the name is one that can neither change nor keep the container"""
    ok = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Compare):
                ok |= {id(x) for x in [n.left] + n.comparators}
            elif isinstance(n, (ast.For, ast.comprehension)):
                ok.add(id(n.iter))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'bool', 'min', 'max', 'sum', 'sorted', 'set'):
                ok |= {id(x) for x in n.args}
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                ok.add(id(n.value))
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name and id(n) not in ok:
                return False
    return True


class Confined:
    def __init__(self, rc, q):
        self.rc, self.q = rc, q
        self.fa, self.fb = rc.rf[q], rc.cf[q]
        self.na, self.nb = stripped(self.fa.node), stripped(self.fb.node)

    def funcinfo(self, f, base, body, locs):
        node = copy.deepcopy(base)
        have = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        for a in (node.args.vararg, node.args.kwarg):
            if a is not None:
                have.add(a.arg)
        for n in sorted(locs - have):
            node.args.kwonlyargs.append(ast.arg(n))
            node.args.kw_defaults.append(None)
        node.body = body
        ast.fix_missing_locations(node)
        return FuncInfo(f.mod, node, f.cls, f.outer)

    def definitions(self, base, body, locs):
        """plain single definitions of the names the region reads"""
        binds, where = {}, {}
        params = {a.arg for a in base.args.posonlyargs + base.args.args + base.args.kwonlyargs}

        def go(n):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                binds[n.id] = binds.get(n.id, 0) + 1
            if isinstance(n, ast.ExceptHandler) and n.name:
                binds[n.name] = 2
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                binds[n.name] = 2
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and plain(n.value):
                where[n.targets[0].id] = n
            for c in ast.iter_child_nodes(n):
                go(c)
        for s in base.body:
            go(s)
        region = set()
        for s in body:
            region |= assigned([s])
        need, todo, out = set(), set(), []
        for s in body:
            todo |= loaded(s)
        while todo:
            n = todo.pop()
            if n in need or n in region or n in params or binds.get(n) != 1 or n not in where:
                continue
            if fresh(where[n].value) and not only_read(n, body + base.body):
                continue
            need.add(n)
            todo |= loaded(where[n].value)
        ds = sorted((where[n] for n in need), key=lambda s: s.lineno)
        return [copy.deepcopy(d) for d in ds]

    def run(self, bodya, bodyb, live, deadline, defs=False, bold=False):
        la, lb = stored(self.na), stored(self.nb)
        locs = la | lb
        bodya, bodyb = copy.deepcopy(bodya), copy.deepcopy(bodyb)
        if defs:
            da, db = self.definitions(self.na, bodya, locs), self.definitions(self.nb, bodyb, locs)
            if not da and not db:
                return None
            bodya, bodyb = da + bodya, db + bodyb
        fa, fb = self.funcinfo(self.fa, self.na, bodya, locs), self.funcinfo(self.fb, self.nb, bodyb, locs)
        try:
            a = self.rc.summary(self.rc.ref, fa, (), deadline)
            b = self.rc.summary(self.rc.cur, fb, (), deadline)
            self.rc.rename_rcalls(b)
            c = Cmp(a, b, self.rc.ref, self.rc.cur, {}, self.rc.attrs, deadline, set(self.rc.rf), set(self.rc.cf))
            c.bold = bold
            a = self.na.args
            c.outer = locs - {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            c.filled = {t.id for f in (self.na, self.nb) for s in ast.walk(f) if isinstance(s, ast.Assign) and made(s.value)
                        for t in s.targets if isinstance(t, ast.Name)} & c.outer
            return c.run()
        except (Budget, RecursionError):
            return [(UNK, (), self.fb.loc, 'budget')]

    def status(self, res):
        if not res:
            return EQ
        if any(r[0] != DIFF for r in res):
            return UNK
        return DIFF

    def both(self, bodya, bodyb, live, deadline, bold=False):
        """the comparison on arbitrary locals, and again with plain definitions in place"""
        r = self.run(bodya, bodyb, live, deadline, bold=bold)
        st = self.status(r)
        if st == EQ:
            return EQ, r
        r2 = self.run(bodya, bodyb, live, deadline, defs=True, bold=bold)
        if r2 is None:
            return st, r
        s2 = self.status(r2)
        if s2 == EQ:
            return EQ, r2
        if st == DIFF and s2 == DIFF:
            return DIFF, r
        return UNK, r

    def region_bodies(self, g):
        if g.kind == 'head':
            x, y = g.a[0], g.b[0]
            if isinstance(x, ast.For):
                def mk(n):
                    v = ast.ListComp(elt=ast.Name('__x', ast.Load()), generators=[ast.comprehension(
                        target=ast.Name('__x', ast.Store()), iter=n.iter, ifs=[], is_async=0)])
                    return [ast.copy_location(ast.Return(v), n)]
            else:
                def mk(n):
                    v = ast.Call(func=ast.Name('bool', ast.Load()), args=[n.test], keywords=[])
                    return [ast.copy_location(ast.Return(v), n)]
            return mk(x), mk(y), ()
        asg = assigned(g.a) | assigned(g.b)
        outer = set()
        own = []
        for base, reg in ((self.na, g.a), (self.nb, g.b)):
            inside = {id(n) for s in reg for n in ast.walk(s)}
            out = set()
            for n in ast.walk(base):
                if isinstance(n, ast.Name) and id(n) not in inside:
                    out.add(n.id)
                    if isinstance(n.ctx, ast.Load):
                        outer.add(n.id)
                elif isinstance(n, ast.arg) and id(n) not in inside:
                    out.add(n.arg)
            if g.inloop:
                # read again in the next round, unless every round sets the name before it reads it
                again = set()
                for n in ast.walk(base):
                    if isinstance(n, (ast.For, ast.While)) and inside & {id(m) for m in ast.walk(n)}:
                        again |= exposed(n.body) | (set() if isinstance(n, ast.For) else {m.id for m in ast.walk(n.test) if isinstance(m, ast.Name)})
                outer |= exposed(reg) & out & again
            own.append({n for n in assigned(reg) if n not in out})
        live = tuple(sorted(asg & outer))
        if g.tail == 'func':
            live = ()

        def fin(stmts, like, mine):
            b = [_Exits(live, g.tail).visit(copy.deepcopy(s)) for s in stmts]
            # names that exist in the region only: unbound before it
            b = [ast.copy_location(ast.Assign(targets=[ast.Name(n, ast.Store())], value=ast.Constant(None)), like) for n in sorted(mine)] + b
            if g.tail == 'func':
                r = ast.Return(ast.Tuple([ast.Constant('__ret__'), ast.Constant(None)], ast.Load()))
                return b + [ast.copy_location(r, like)]
            r = ast.Return(ast.Tuple([ast.Constant('__next__')] + [ast.Name(n, ast.Load()) for n in live], ast.Load()))
            r.lineno = getattr(like, 'lineno', 1)
            r.col_offset = 0
            return b + [r]
        like = (g.a or g.b)[0]
        return fin(g.a, like, own[0]), fin(g.b, like, own[1]), live

    def decide(self, budget=30.0):
        """(status, results, regions that differ)"""
        deadline = time.time() + budget
        rs = regions(self.na, self.nb)
        if not rs or len(rs) > 6:
            return None
        for g in rs:
            for s in g.a + g.b:
                for n in ast.walk(s):
                    if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await)):
                        return None
        left = []
        for g in rs:
            ba, bb, live = self.region_bodies(g)
            st, res = self.both(ba, bb, live, deadline)
            if st != EQ:
                left.append((g, st, res, (ba, bb, live)))
        if not left:
            return EQ, [], []
        if len(left) > 1:
            return self.several(left, deadline)
        g, st, res, (ba, bb, live) = left[0]
        if st == DIFF:
            return DIFF, res, [g]
        r = self.expression(g, deadline)
        if r is not None:
            return r[0], r[1], [g]
        st, res2 = self.both(ba, bb, live, deadline, bold=True)
        if st == DIFF:
            return DIFF, [x[:3] + ('%s (only replaced part)' % x[3],) for x in res2], [g]
        r = self.expression(g, deadline, bold=True)
        if r is not None and r[0] == DIFF:
            return r[0], r[1], [g]
        return UNK, res, [g]

    def several(self, left, deadline):
        allres = [r for x in left for r in x[2]]
        allreg = [x[0] for x in left]
        nodes = (self.na, self.nb)
        for g, st, res, _ in left:
            if st == DIFF and all(h is g or independent(g, h, nodes) for h in allreg):
                return DIFF, res, [g]
        h = hull(self.na, self.nb)
        if h.a or h.b:
            ba, bb, live = self.region_bodies(h)
            st, res = self.both(ba, bb, live, deadline)
            if st == EQ:
                return EQ, [], []
            if st == DIFF:
                return DIFF, res, allreg
        return UNK, allres, allreg

    def expression(self, g, deadline, bold=False):
        """a single sub-expression replaced"""
        if len(g.a) != 1 or len(g.b) != 1:
            return None
        x, y = g.a[0], g.b[0]
        if g.kind == 'head':
            f = 'iter' if isinstance(x, ast.For) else 'test'
            x, y = getattr(x, f), getattr(y, f)
        ch = expr_chain(x, y)
        if not ch or any(isinstance(e, (ast.Starred,)) for e in ch[-1]):
            return None
        last = None
        for i, (p, q) in enumerate(ch):
            if not all(isinstance(getattr(e, 'ctx', None), (ast.Load, type(None))) for e in (p, q)) and \
                    not isinstance(p, (ast.Name, ast.Attribute, ast.Subscript)):
                continue
            if isinstance(p, ast.Slice) or isinstance(q, ast.Slice):
                continue
            ps, qs = _load(copy.deepcopy(p)), _load(copy.deepcopy(q))
            st, res = self.both([ast.Return(ps)], [ast.Return(qs)], (), deadline, bold=bold)
            if st == EQ:
                return EQ, []
            last = (st, res, i)
        if last is None:
            return None
        st, res, i = last
        if st == DIFF and not any(insensitive(p) for p, _ in ch[:i]):
            return DIFF, res
        return None


def _load(e):
    for n in ast.walk(e):
        if hasattr(n, 'ctx') and not isinstance(n.ctx, ast.Load):
            n.ctx = ast.Load()
    return e


def insensitive(p):
    if isinstance(p, ast.Call):
        f = p.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return n in ('set', 'frozenset', 'len', 'sorted', 'any', 'all', 'sum', 'min', 'max', 'bool', 'isinstance', 'list', 'tuple', 'dict',
                     'OrderedDict', 'union', 'intersection', 'difference', 'update', 'issubset', 'issuperset')
    if isinstance(p, ast.Compare):
        return any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops)
    return isinstance(p, (ast.Lambda, ast.BoolOp))
