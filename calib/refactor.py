"""Behaviour-preserving source transformations used to calibrate the comparison layer
(development tool: no check reads this; see DESIGN.md, 'Calibration')."""
import ast
import copy
import random

FD = (ast.FunctionDef,)


def locals_of(fn):
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        params.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.add(fn.args.kwarg.arg)
    loc, bad = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bad.add(n.name)
            bad.update(a.arg for a in getattr(n, 'args', ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], defaults=[])).args) \
                if isinstance(n, ast.FunctionDef) else None
        if isinstance(n, ast.Lambda):
            bad.update(a.arg for a in n.args.args)
    return loc - params - bad, params


class R(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.k = 0
        self.fn = None

    def new(self, p='tmp_'):
        self.k += 1
        return '%sq%d' % (p, self.k)


def t_rename(fn, ctx):
    loc, _ = locals_of(fn)
    m = {x: x + '_r' for x in loc}
    n = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
            n += 1
    return n


def blocks(fn):
    for x in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, f, b
        if isinstance(x, ast.Try):
            for h in x.handlers:
                pass


def fresh(fn):
    for x, f, _ in list(blocks(fn)):
        b = getattr(x, f)
        if b:
            yield x, f, b


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def assign(n, v):
    return ast.Assign(targets=[name(n, ast.Store())], value=v)


def t_temp_return(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                c += 1
                out += [assign('ret_v', s.value), ast.Return(value=name('ret_v'))]
            else:
                out.append(s)
        setattr(x, f, out)
    return c


def has_yield_await(e):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for n in ast.walk(e))


def t_temp_arg(fn, ctx):
    """hoist the first evaluated call argument of a statement into a temporary"""
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            e = None
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call):
                e = s.value
            if e is not None and e.args and isinstance(e.args[0], (ast.Call, ast.BinOp, ast.Subscript, ast.Attribute)) \
                    and isinstance(e.func, (ast.Name, ast.Attribute)) and not has_yield_await(e.args[0]) and \
                    not (isinstance(e.func, ast.Attribute) and any(isinstance(n, ast.Call) for n in ast.walk(e.func))):
                c += 1
                nm = 'arg_v%d' % c
                out.append(assign(nm, e.args[0]))
                e.args[0] = name(nm)
            out.append(s)
        setattr(x, f, out)
    return c


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        t = type(e.ops[0])
        if t in m:
            return ast.Compare(left=e.left, ops=[m[t]()], comparators=e.comparators)
    return ast.UnaryOp(op=ast.Not(), operand=e)


def t_invert_if(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and x.orelse:
            x.test, x.body, x.orelse = neg(x.test), x.orelse, x.body
            c += 1
        elif isinstance(x, ast.IfExp):
            x.test, x.body, x.orelse = neg(x.test), x.orelse, x.body
            c += 1
    return c


def t_invert_if_empty(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse:
            x.test, x.body, x.orelse = neg(x.test), [ast.Pass()], x.body
            c += 1
    return c


def t_flip_cmp(fn, ctx):
    c = 0
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in m:
            x.left, x.comparators, x.ops = x.comparators[0], [x.left], [m[type(x.ops[0])]()]
            c += 1
    return c


def t_not_cmp(fn, ctx):
    m = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
         ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    c = 0

    class T(ast.NodeTransformer):
        def visit_If(self, n):
            nonlocal c
            self.generic_visit(n)
            if isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and type(n.test.ops[0]) in m:
                n.test = ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=n.test.left, ops=[m[type(n.test.ops[0])]()],
                                                                      comparators=n.test.comparators))
                c += 1
            return n
    T().visit(fn)
    return c


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def t_else_after_return(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                setattr(x, f, b[:i + 1])
                c += 1
                break
    return c


def t_dedent_else(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                out.extend(s.orelse)
                s.orelse = []
                c += 1
        setattr(x, f, out)
    return c


def comp_loop(e, acc_stmt):
    body = acc_stmt
    for g in reversed(e.generators):
        for i in reversed(g.ifs):
            body = ast.If(test=i, body=[body], orelse=[])
        body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
    return body


def t_comp_to_loop(fn, ctx):
    c = 0
    names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)}
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            e = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)) and (isinstance(s, ast.Return) or (
                    len(s.targets) == 1 and isinstance(s.targets[0], ast.Name))):
                tg = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                inside = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
                outer = {n.id for st in ast.walk(fn) if isinstance(st, ast.Name) for n in [st] if isinstance(n.ctx, ast.Store)}
                acc = 'acc_v%d' % c
                # rename the targets apart
                ren = {t: t + '_c%d' % c for t in tg}
                e = copy.deepcopy(e)
                for n in ast.walk(e):
                    if isinstance(n, ast.Name) and n.id in ren:
                        n.id = ren[n.id]
                if isinstance(e, ast.ListComp):
                    init, st = ast.List(elts=[], ctx=ast.Load()), ast.Expr(ast.Call(
                        func=ast.Attribute(value=name(acc), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
                elif isinstance(e, ast.SetComp):
                    init, st = ast.Call(func=name('set'), args=[], keywords=[]), ast.Expr(ast.Call(
                        func=ast.Attribute(value=name(acc), attr='add', ctx=ast.Load()), args=[e.elt], keywords=[]))
                else:
                    init, st = ast.Dict(keys=[], values=[]), ast.Assign(targets=[ast.Subscript(
                        value=name(acc), slice=e.key, ctx=ast.Store())], value=e.value)
                out.append(assign(acc, init))
                out.append(comp_loop(e, st))
                s.value = name(acc)
                c += 1
            out.append(s)
        setattr(x, f, out)
    return c


def t_loop_to_comp(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, l = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(
                    l, ast.For) and not l.orelse and len(l.body) == 1:
                nm = s.targets[0].id
                gens = [ast.comprehension(target=l.target, iter=l.iter, ifs=[], is_async=0)]
                st = l.body[0]
                while True:
                    if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1:
                        gens[-1].ifs.append(st.test)
                        st = st.body[0]
                    elif isinstance(st, ast.For) and not st.orelse and len(st.body) == 1:
                        gens.append(ast.comprehension(target=st.target, iter=st.iter, ifs=[], is_async=0))
                        st = st.body[0]
                    else:
                        break
                uses = sum(1 for n in ast.walk(l) if isinstance(n, ast.Name) and n.id == nm)
                tg = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                later = any(isinstance(n, ast.Name) and n.id in tg for t in out[i + 2:] for n in ast.walk(t))
                e = None
                if uses == 1 and not later and isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(
                        st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name) and \
                        st.value.func.value.id == nm and st.value.func.attr == 'append' and isinstance(s.value, ast.List) and not s.value.elts:
                    e = ast.ListComp(elt=st.value.args[0], generators=gens)
                elif uses == 1 and not later and isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and isinstance(
                        st.targets[0].value, ast.Name) and st.targets[0].value.id == nm and (
                        isinstance(s.value, ast.Dict) and not s.value.keys):
                    e = ast.DictComp(key=st.targets[0].slice, value=st.value, generators=gens)
                if e is not None:
                    out[i:i + 2] = [assign(nm, e)]
                    c += 1
            i += 1
        setattr(x, f, out)
    return c


def direct(b, kinds):
    """loop-control statements belonging to this loop"""
    for s in b:
        if isinstance(s, kinds):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            if isinstance(s, (ast.For, ast.While)) and direct(s.orelse, kinds):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(s, f, None)
            if isinstance(v, list) and direct(v, kinds):
                return True
        if isinstance(s, ast.Try):
            for h in s.handlers:
                if direct(h.body, kinds):
                    return True
    return False


def t_range_to_while(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(
                    s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) <= 2 and not direct(s.body, (ast.Continue,)):
                lo, hi = (ast.Constant(0), s.iter.args[0]) if len(s.iter.args) == 1 else s.iter.args
                stores = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if s.target.id in stores:
                    out.append(s)
                    continue
                end = 'end_v%d' % c
                out.append(assign(end, hi))
                out.append(assign(s.target.id, lo))
                out.append(ast.While(test=ast.Compare(left=name(s.target.id), ops=[ast.Lt()], comparators=[name(end)]),
                                     body=s.body + [ast.AugAssign(target=name(s.target.id, ast.Store()), op=ast.Add(), value=ast.Constant(1))],
                                     orelse=[]))
                c += 1
            else:
                out.append(s)
        setattr(x, f, out)
    return c


def t_augassign(fn, ctx):
    c = 0

    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            nonlocal c
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)):
                c += 1
                l = copy.deepcopy(n.target)
                l.ctx = ast.Load()
                return ast.Assign(targets=[n.target], value=ast.BinOp(left=l, op=n.op, right=n.value))
            return n
    T().visit(fn)
    return c


def t_noop(fn, ctx):
    b = fn.body
    i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    b.insert(i, assign('_unused_marker', ast.Constant(None)))
    return 1


def t_noop_loop(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.While)):
            x.body.insert(0, ast.Expr(ast.Tuple(elts=[], ctx=ast.Load())))
            c += 1
    return c


def pure(e):
    return not any(isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Subscript)) for n in ast.walk(e))


def t_swap(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], (ast.Name, ast.Attribute)) for z in (s, t)) \
                    and pure(s.value) and pure(t.value):
                def wr(z):
                    return ast.dump(z.targets[0]).replace('Store', 'Load')

                def rd(z):
                    return {ast.dump(n) for n in ast.walk(z.value) if isinstance(n, (ast.Name, ast.Attribute))} | (
                        {ast.dump(z.targets[0].value)} if isinstance(z.targets[0], ast.Attribute) else set())
                props = any(isinstance(n, ast.Attribute) for z in (s, t) for n in [z.targets[0]])
                if wr(s) != wr(t) and wr(s) not in rd(t) and wr(t) not in rd(s) and not (
                        props and any(isinstance(n, ast.Attribute) for z in (s, t) for n in ast.walk(z.value))):
                    b[i], b[i + 1] = t, s
                    c += 1
                    i += 1
            i += 1
    return c


def t_ifexp_stmt(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                e = s.value
                out.append(ast.If(test=e.test, body=[ast.Assign(targets=s.targets, value=e.body)],
                                  orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=e.orelse)]))
                c += 1
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                e = s.value
                out.append(ast.If(test=e.test, body=[ast.Return(e.body)], orelse=[]))
                out.append(ast.Return(e.orelse))
                c += 1
            else:
                out.append(s)
        setattr(x, f, out)
    return c


def t_stmt_ifexp(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(
                    isinstance(z, ast.Assign) and len(z.targets) == 1 for z in (s.body[0], s.orelse[0])) and \
                    ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], (ast.Name, ast.Attribute)):
                out.append(ast.Assign(targets=s.body[0].targets, value=ast.IfExp(test=s.test, body=s.body[0].value, orelse=s.orelse[0].value)))
                c += 1
            elif isinstance(s, ast.If) and len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Return) and s.body[0].value is not None \
                    and i + 1 < len(b) and isinstance(b[i + 1], ast.Return) and b[i + 1].value is not None:
                out.append(ast.Return(ast.IfExp(test=s.test, body=s.body[0].value, orelse=b[i + 1].value)))
                c += 1
                i += 1
            else:
                out.append(s)
            i += 1
        setattr(x, f, out)
    return c


def t_nest_and(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            vs = x.test.values
            inner = ast.If(test=vs[1] if len(vs) == 2 else ast.BoolOp(op=ast.And(), values=vs[1:]), body=x.body, orelse=[])
            x.test, x.body = vs[0], [inner]
            c += 1
    return c


def t_flatten_and(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            i = x.body[0]
            x.test, x.body = ast.BoolOp(op=ast.And(), values=[x.test, i.test]), i.body
            c += 1
    return c


def t_continue_guard(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.While)) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse:
            i = x.body[-1]
            x.body[-1:] = [ast.If(test=neg(i.test), body=[ast.Continue()], orelse=[])] + i.body
            c += 1
    return c


def t_unguard_continue(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.While)):
            for i, s in enumerate(x.body):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(x.body):
                    rest = x.body[i + 1:]
                    x.body[i:] = [ast.If(test=neg(s.test), body=rest, orelse=[])]
                    c += 1
                    break
    return c


def t_enum_to_range(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'enumerate' \
                and len(x.iter.args) == 1 and isinstance(x.target, ast.Tuple) and isinstance(x.iter.args[0], (ast.Name, ast.Attribute)) \
                and isinstance(x.target.elts[0], ast.Name):
            it = x.iter.args[0]
            i, v = x.target.elts
            x.target = name(i.id, ast.Store())
            x.iter = ast.Call(func=name('range'), args=[ast.Call(func=name('len'), args=[it], keywords=[])], keywords=[])
            x.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(it), slice=name(i.id), ctx=ast.Load())))
            c += 1
    return c


def t_range_to_enum(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'range' \
                and len(x.iter.args) == 1 and isinstance(x.iter.args[0], ast.Call) and isinstance(x.iter.args[0].func, ast.Name) \
                and x.iter.args[0].func.id == 'len' and isinstance(x.target, ast.Name):
            it = x.iter.args[0].args[0]
            d = ast.dump(it)
            mod = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and ast.dump(n.value).replace('Store', 'Load') == d
                      for s in x.body for n in ast.walk(s))
            if mod or not isinstance(it, (ast.Name, ast.Attribute)):
                continue
            i = x.target.id

            class T(ast.NodeTransformer):
                def visit_Subscript(self, n):
                    self.generic_visit(n)
                    if isinstance(n.ctx, ast.Load) and ast.dump(n.value) == d and isinstance(n.slice, ast.Name) and n.slice.id == i:
                        return name('el_v%d' % c)
                    return n
            x.body = [T().visit(s) for s in x.body]
            x.target = ast.Tuple(elts=[name(i, ast.Store()), name('el_v%d' % c, ast.Store())], ctx=ast.Store())
            x.iter = ast.Call(func=name('enumerate'), args=[it], keywords=[])
            c += 1
    return c


def t_items(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == 'items' \
                and not x.iter.args and isinstance(x.target, ast.Tuple) and isinstance(x.iter.func.value, (ast.Name, ast.Attribute)) and \
                isinstance(x.target.elts[0], ast.Name):
            d = x.iter.func.value
            k, v = x.target.elts
            x.target = name(k.id, ast.Store())
            x.iter = d
            x.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=name(k.id), ctx=ast.Load())))
            c += 1
    return c


def t_tuple_assign(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) \
                    and len(s.value.elts) == len(s.targets[0].elts):
                names_ = {n.id for t in s.targets[0].elts for n in ast.walk(t) if isinstance(n, ast.Name)}
                used = {n.id for t in s.value.elts for n in ast.walk(t) if isinstance(n, ast.Name)}
                if not names_ & used:
                    for t, v in zip(s.targets[0].elts, s.value.elts):
                        out.append(ast.Assign(targets=[t], value=v))
                    c += 1
                    continue
            out.append(s)
        setattr(x, f, out)
    return c


def t_unpack_index(fn, ctx):
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, (ast.Call, ast.Name)) \
                    and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
                nm = 'tup_v%d' % c
                out.append(assign(nm, s.value))
                for i, t in enumerate(s.targets[0].elts):
                    out.append(ast.Assign(targets=[t], value=ast.Subscript(value=name(nm), slice=ast.Constant(i), ctx=ast.Load())))
                c += 1
                continue
            out.append(s)
        setattr(x, f, out)
    return c


def t_chain(fn, ctx):
    c = 0

    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            nonlocal c
            self.generic_visit(n)
            if len(n.ops) == 2 and isinstance(n.comparators[0], (ast.Name, ast.Attribute, ast.Constant)):
                c += 1
                return ast.BoolOp(op=ast.And(), values=[ast.Compare(left=n.left, ops=[n.ops[0]], comparators=[n.comparators[0]]),
                                                        ast.Compare(left=n.comparators[0], ops=[n.ops[1]], comparators=[n.comparators[1]])])
            return n
    T().visit(fn)
    return c


def t_demorgan(fn, ctx):
    c = 0

    class T(ast.NodeTransformer):
        def visit_If(self, n):
            nonlocal c
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[neg(v) for v in n.test.values]))
                c += 1
            return n
    T().visit(fn)
    return c


def t_while_true(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.While) and not (isinstance(x.test, ast.Constant)) and not x.orelse:
            x.body.insert(0, ast.If(test=neg(x.test), body=[ast.Break()], orelse=[]))
            x.test = ast.Constant(True)
            c += 1
    return c


def t_true_while(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.While) and isinstance(x.test, ast.Constant) and x.test.value and isinstance(x.body[0], ast.If) and \
                len(x.body[0].body) == 1 and isinstance(x.body[0].body[0], ast.Break) and not x.body[0].orelse and len(x.body) > 1:
            x.test = neg(x.body[0].test)
            x.body = x.body[1:]
            c += 1
    return c


def t_single_exit(fn, ctx):
    """return in both arms of a tail if -> result variable"""
    c = 0

    def conv(b):
        nonlocal c
        if not b:
            return
        s = b[-1]
        if isinstance(s, ast.Return) and s.value is not None:
            b[-1] = assign('result_v', s.value)
            return True
        return False
    b = fn.body
    if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-2], ast.If) and b[-1].value is not None:
        i = b[-2]
        if ends(i.body) and isinstance(i.body[-1], ast.Return) and i.body[-1].value is not None and not i.orelse:
            i.body[-1] = assign('result_v', i.body[-1].value)
            i.orelse = [assign('result_v', b[-1].value)]
            b[-1] = ast.Return(name('result_v'))
            c += 1
    return c


def t_list_literal(fn, ctx):
    c = 0

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal c
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and not n.args and not n.keywords and n.func.id in ('list', 'dict'):
                c += 1
                return ast.List(elts=[], ctx=ast.Load()) if n.func.id == 'list' else ast.Dict(keys=[], values=[])
            return n
    T().visit(fn)
    return c


def t_fstring(fn, ctx):
    c = 0

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal c
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(
                    n.func.value.value, str) and not n.keywords and n.func.value.value.count('{}') == len(n.args) and \
                    n.func.value.value.count('{') == len(n.args) and not any(isinstance(a, ast.Starred) for a in n.args):
                ps = n.func.value.value.split('{}')
                vs = []
                for i, p in enumerate(ps):
                    if p:
                        vs.append(ast.Constant(p))
                    if i < len(n.args):
                        vs.append(ast.FormattedValue(value=n.args[i], conversion=-1))
                c += 1
                return ast.JoinedStr(values=vs)
            return n
    T().visit(fn)
    return c


def t_alias_attr(fn, ctx):
    """bind self.<attr> read before any store/call to a local when never assigned in the function"""
    if not fn.args.args or fn.args.args[0].arg != 'self':
        return 0
    stored = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for n in ast.walk(fn)):
        return 0
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                ats = [n for n in ast.walk(s.value) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'
                       and isinstance(n.ctx, ast.Load)]
                calls = {id(n.func) for n in ast.walk(s.value) if isinstance(n, ast.Call)}
                ats = [a for a in ats if id(a) not in calls]
                if ats and not any(isinstance(n, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp))
                                   for n in ast.walk(s.value)):
                    a = ats[0]
                    first = min((n for n in ast.walk(s.value) if isinstance(n, ast.Call)), key=lambda n: (n.lineno, n.col_offset), default=None)
                    nm = 'at_v%d' % c
                    at = a.attr
                    out.append(assign(nm, ast.Attribute(value=name('self'), attr=at, ctx=ast.Load())))

                    class T(ast.NodeTransformer):
                        done = False

                        def visit_Attribute(self, n):
                            if not T.done and n is a:
                                T.done = True
                                return name(nm)
                            self.generic_visit(n)
                            return n
                    s.value = T().visit(s.value)
                    c += 1
            out.append(s)
        setattr(x, f, out)
    return c


def t_inline_temp(fn, ctx):
    """x = e; <stmt using x once> -> inline, when x is used nowhere else"""
    c = 0
    for x, f, b in fresh(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return, ast.Expr)) \
                    and getattr(t, 'value', None) is not None and not has_yield_await(s.value):
                nm = s.targets[0].id
                allu = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == nm]
                inu = [n for n in ast.walk(t.value) if isinstance(n, ast.Name) and n.id == nm]
                inner = any(isinstance(n, (ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.IfExp, ast.BoolOp)) for n in ast.walk(t.value))
                precall = sum(isinstance(n, ast.Call) for n in ast.walk(t.value)) > 1
                if len(allu) == 2 and len(inu) == 1 and not inner and not precall:
                    class T(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return s.value if n.id == nm else n
                    t.value = T().visit(t.value)
                    del b[i]
                    c += 1
                    continue
            i += 1
    return c


def t_extract_tail(fn, ctx):
    """move the tail of the body into a helper"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
        return 0
    b = fn.body
    start = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    k = (len(b) + start + 1) // 2
    if k >= len(b) or k <= start - 1 or len(b) - start < 2:
        return 0
    if fn.name == '__init__' or any(d for d in fn.decorator_list):
        return 0
    tail, hd = b[k:], b[:k]
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for s in tail for n in ast.walk(s)):
        return 0
    if any(isinstance(n, (ast.FunctionDef, ast.Import, ast.ImportFrom)) for s in b for n in ast.walk(s)):
        return 0
    loc, params = locals_of(fn)
    bound = params | {n.id for s in hd for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    # comprehension targets are not bound outside
    comp = set()
    for s in hd:
        for n in ast.walk(s):
            if isinstance(n, ast.comprehension):
                comp |= {m.id for m in ast.walk(n.target) if isinstance(m, ast.Name)}
            if isinstance(n, ast.ExceptHandler) and n.name:
                comp.add(n.name)
    hard = params | {m.id for s in hd for st in ast.walk(s) if isinstance(st, (ast.Assign, ast.AugAssign, ast.For, ast.With, ast.AnnAssign))
                     for tg in ([st.target] if hasattr(st, 'target') else getattr(st, 'targets', []) + [i.optional_vars for i in getattr(st, 'items', []) if i.optional_vars])
                     for m in ast.walk(tg) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
    # names possibly unbound at the cut (bound only under a condition) make the cut unsafe
    sure = set(params)
    for s in hd:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.With)):
            for m in ast.walk(s):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                    sure.add(m.id)
        if isinstance(s, ast.If) and s.orelse:
            def asg(bb):
                return {m.id for t in bb if isinstance(t, ast.Assign) for m in ast.walk(t) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
            sure |= asg(s.body) & asg(s.orelse)
    used = [n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name)]
    need = []
    for u in used:
        if u in hard and u not in need:
            need.append(u)
    if any(u not in sure for u in need):
        return 0
    meth = ctx['cls'] is not None and fn.args.args and fn.args.args[0].arg == 'self'
    hname = '_%s_tail' % fn.name.strip('_')
    if meth:
        args = ['self'] + [u for u in need if u != 'self']
        call = ast.Call(func=ast.Attribute(value=name('self'), attr=hname, ctx=ast.Load()), args=[name(a) for a in args[1:]], keywords=[])
    else:
        if ctx['cls'] is not None:
            return 0
        args = need
        call = ast.Call(func=name(hname), args=[name(a) for a in args], keywords=[])
    h = ast.FunctionDef(name=hname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=tail, decorator_list=[], type_params=[])
    hasret = any(isinstance(n, ast.Return) for s in tail for n in ast.walk(s))
    fn.body = hd + [ast.Return(call) if hasret else ast.Expr(call)]
    ctx['new'].append((ctx['cls'], h))
    return 1


def t_extract_expr(fn, ctx):
    """the value of the first non-trivial assignment moves into a helper function"""
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn):
        return 0
    loc, params = locals_of(fn)
    known = loc | params
    for x, f, b in fresh(fn):
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.BinOp, ast.Call, ast.ListComp, ast.DictComp)) and not has_yield_await(s.value):
                if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'vars') for n in ast.walk(s.value)):
                    continue
                tg = {m.id for n in ast.walk(s.value) if isinstance(n, ast.comprehension) for m in ast.walk(n.target) if isinstance(m, ast.Name)}
                use = []
                for n in ast.walk(s.value):
                    if isinstance(n, ast.Name) and n.id in known and n.id not in use and n.id not in tg:
                        use.append(n.id)
                hname = '_%s_value' % fn.name.strip('_') + ('_' + ctx['cls'].lower() if ctx['cls'] else '')
                h = ast.FunctionDef(name=hname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='p_' + a) for a in use], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                    body=[ast.Return(ren(copy.deepcopy(s.value), {u: 'p_' + u for u in use}))], decorator_list=[], type_params=[])
                s.value = ast.Call(func=name(hname), args=[name(a) for a in use], keywords=[])
                ctx['new'].append((None, h))
                return 1
    return 0


def ren(e, m):
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
    return e


def t_extract_loop_body(fn, ctx):
    """the body of the first simple for loop becomes a method/func (no loop control, no rebinding used later)"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn):
        return 0
    loc, params = locals_of(fn)
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and not x.orelse and not direct(x.body, (ast.Break, ast.Continue)) and not any(
                isinstance(n, (ast.Return, ast.Import)) for s in x.body for n in ast.walk(s)):
            st = {n.id for s in x.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            aug = {n.target.id for s in x.body for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
            inside = {id(n) for s in x.body for n in ast.walk(s)}
            outside = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and id(n) not in inside}
            if (st & outside) or aug:
                continue
            # a name read before it is stored in the body is carried from iteration to iteration
            use = []
            for s in x.body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and n.id in (loc | params) and n.id not in st and n.id not in use:
                        use.append(n.id)
            first_store_ok = True
            seen = set()
            for s in x.body:
                rd = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
                if isinstance(s, (ast.Assign,)):
                    if (rd & st) - seen:
                        first_store_ok = False
                    seen |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                else:
                    if st - seen:
                        inn = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                        if (rd & st) - seen - inn:
                            first_store_ok = False
                    seen |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if not first_store_ok:
                continue
            meth = ctx['cls'] is not None and 'self' in use
            if ctx['cls'] is not None and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for s in x.body for n in ast.walk(s)):
                continue
            hname = '_%s_step' % fn.name.strip('_') + ('' if meth else '_%s' % (ctx['cls'] or '').lower())
            args = (['self'] if meth else []) + [u for u in use if not (meth and u == 'self')]
            h = ast.FunctionDef(name=hname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                body=x.body, decorator_list=[], type_params=[])
            fx = ast.Attribute(value=name('self'), attr=hname, ctx=ast.Load()) if meth else name(hname)
            x.body = [ast.Expr(ast.Call(func=fx, args=[name(a) for a in args[1 if meth else 0:]], keywords=[]))]
            ctx['new'].append((ctx['cls'] if meth else None, h))
            return 1
    return 0


def t_const_hoist(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        for f, v in ast.iter_fields(x):
            if isinstance(x, (ast.JoinedStr, ast.FormattedValue)) or isinstance(x, ast.Expr):
                continue
            vs = v if isinstance(v, list) else [v]
            for i, e in enumerate(vs):
                if isinstance(e, ast.Constant) and isinstance(e.value, (str, int)) and not isinstance(e.value, bool) and e.value not in ('', 0, 1) and c < 3 \
                        and isinstance(x, (ast.Call, ast.Compare, ast.Assign, ast.BinOp)):
                    nm = '_CONST_%d' % len(ctx['consts'])
                    ctx['consts'].append((nm, e.value))
                    if isinstance(v, list):
                        v[i] = name(nm)
                    else:
                        setattr(x, f, name(nm))
                    c += 1
    return c


def t_else_if_split(fn, ctx):
    """if a: X elif b: Y -> if a: X; if (not a) and b: Y, for pure tests over names not assigned in X"""
    c = 0
    for x, f, b in fresh(fn):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and pure(s.test) and not any(
                    isinstance(n, ast.Attribute) for n in ast.walk(s.test)):
                rd = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
                wr = {n.id for t in s.body for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                muts = {n.func.value.id for t in s.body for n in ast.walk(t) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                        and isinstance(n.func.value, ast.Name)}
                if rd & wr or rd & muts:
                    continue
                e = s.orelse[0]
                s.orelse = []
                out.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=copy.deepcopy(s.test)), body=[e], orelse=[]))
                c += 1
        setattr(x, f, out)
    return c


def t_kwargs(fn, ctx):
    """positional -> keyword for in-package functions with a unique signature"""
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and x.args and not any(isinstance(a, ast.Starred) for a in x.args):
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            sig = ctx['sigs'].get(nm)
            if sig and len(x.args) <= len(sig) and isinstance(x.func, ast.Name):
                x.keywords = [ast.keyword(arg=p, value=a) for p, a in zip(sig, x.args)] + x.keywords
                x.args = []
                c += 1
    return c


def t_join_if(fn, ctx):
    """merge consecutive ifs with the same pure test"""
    c = 0
    for x, f, b in fresh(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.If) and isinstance(t, ast.If) and ast.dump(s.test) == ast.dump(t.test) and not s.orelse and not t.orelse and isinstance(s.test, ast.Name):
                wr = {n.id for q in s.body for n in ast.walk(q) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if s.test.id not in wr and not ends(s.body):
                    s.body += t.body
                    del b[i + 1]
                    c += 1
                    continue
            i += 1
    return c


def t_for_list_index(fn, ctx):
    """for x in L (plain local/attr list) -> for i in range(len(L)): x = L[i]   [lists only: judged by name]"""
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, ast.Name) and (x.iter.id.endswith('s') or 'list' in x.iter.id):
            it = x.iter
            v = x.target
            i = 'ix_v%d' % c
            x.target = name(i, ast.Store())
            x.iter = ast.Call(func=name('range'), args=[ast.Call(func=name('len'), args=[it], keywords=[])], keywords=[])
            x.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(it), slice=name(i), ctx=ast.Load())))
            c += 1
    return c


def t_try_narrow(fn, ctx):
    return 0


def t_update_merge(fn, ctx):
    """d.get(k, v) <-> d[k] if k in d else v"""
    c = 0

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal c
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2 and isinstance(n.func.value, (ast.Name, ast.Attribute)) \
                    and getattr(n.func.value, 'id', '') != 'config' and isinstance(n.args[0], (ast.Name, ast.Constant)) and isinstance(n.args[1], (ast.Name, ast.Constant)):
                c += 1
                d, k, v = n.func.value, n.args[0], n.args[1]
                return ast.IfExp(test=ast.Compare(left=k, ops=[ast.In()], comparators=[d]),
                                 body=ast.Subscript(value=copy.deepcopy(d), slice=copy.deepcopy(k), ctx=ast.Load()), orelse=v)
            return n
    T().visit(fn)
    return c


def t_if_raise_else(fn, ctx):
    """guard: 'if bad: raise' first vs wrapped body"""
    c = 0
    for x, f, b in fresh(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Raise) and i + 1 < len(b):
                rest = b[i + 1:]
                b[i:] = [ast.If(test=neg(s.test), body=rest, orelse=s.body)]
                c += 1
                break
    return c


def t_list_call(fn, ctx):
    """[x for x in it] -> list(it) and list(it) -> [x for x in it]"""
    c = 0

    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            nonlocal c
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'set') and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Call)):
                c += 1
                k = ast.ListComp if n.func.id == 'list' else ast.SetComp
                return k(elt=name('lc_v'), generators=[ast.comprehension(target=name('lc_v', ast.Store()), iter=n.args[0], ifs=[], is_async=0)])
            return n

        def visit_ListComp(self, n):
            nonlocal c
            self.generic_visit(n)
            if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.elt, ast.Name) and isinstance(
                    n.generators[0].target, ast.Name) and n.elt.id == n.generators[0].target.id:
                c += 1
                return ast.Call(func=name('list'), args=[n.generators[0].iter], keywords=[])
            return n
    T().visit(fn)
    return c


def t_with_close(fn, ctx):
    """reuse a local name for a second purpose is not done; nested with -> single with"""
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, ast.With) and len(x.body) == 1 and isinstance(x.body[0], ast.With):
            x.items += x.body[0].items
            x.body = x.body[0].body
            c += 1
    return c


def t_logging(fn, ctx):
    c = 0
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.If)):
            x.body.insert(0, ast.Expr(ast.Call(func=name('print'), args=[ast.Constant('.')], keywords=[])))
            c += 1
    fn.body.append(ast.Expr(ast.Call(func=name('print'), args=[ast.Constant('done')], keywords=[]))) if not ends(fn.body) else None
    return c


def t_any_loop(fn, ctx):
    """for x in xs: if c: return True; return False -> return any(...)"""
    c = 0
    for x, f, b in fresh(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and \
                    len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Return) and isinstance(t, ast.Return) and \
                    isinstance(s.body[0].body[0].value, ast.Constant) and isinstance(t.value, ast.Constant) and \
                    isinstance(t.value.value, bool) and isinstance(s.body[0].body[0].value.value, bool) and t.value.value != s.body[0].body[0].value.value:
                fnn = 'any' if t.value.value is False else 'all'
                tst = s.body[0].test if fnn == 'any' else neg(s.body[0].test)
                b[i:i + 2] = [ast.Return(ast.Call(func=name(fnn), args=[ast.GeneratorExp(elt=tst, generators=[ast.comprehension(
                    target=s.target, iter=s.iter, ifs=[], is_async=0)])], keywords=[]))]
                c += 1
            i += 1
    return c


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}


def transform_module(tree, kinds, prob=1.0, rng=None, only=None):
    """apply the transformation(s) to all functions; -> (tree, {qual: count})"""
    rng = rng or random.Random(0)
    counts = {}
    sigs, dup = {}, set()
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            if s.args.vararg or s.args.posonlyargs:
                dup.add(s.name)
            if s.name in sigs:
                dup.add(s.name)
            sigs[s.name] = [a.arg for a in s.args.args]
    for d in dup:
        sigs.pop(d, None)
    newf, consts = [], []

    def do(fn, cls):
        q = (cls + '.' if cls else '') + fn.name
        if only is not None and not only(q):
            return
        ctx = {'cls': cls, 'new': newf, 'consts': consts, 'sigs': sigs}
        n = 0
        for k in kinds:
            if rng.random() <= prob:
                n += ALL[k](fn, ctx)
                ast.fix_missing_locations(fn)
        if n:
            counts[q] = n
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            do(s, None)
        elif isinstance(s, ast.ClassDef):
            for t in s.body:
                if isinstance(t, ast.FunctionDef):
                    do(t, s.name)
    for cls, h in newf:
        if cls is None:
            tree.body.append(h)
        else:
            for s in tree.body:
                if isinstance(s, ast.ClassDef) and s.name == cls:
                    s.body.append(h)
    if consts:
        i = 0
        while i < len(tree.body) and (isinstance(tree.body[i], (ast.Import, ast.ImportFrom)) or (
                isinstance(tree.body[i], ast.Expr))):
            i += 1
        tree.body[i:i] = [assign(n, ast.Constant(v)) for n, v in consts]
    ast.fix_missing_locations(tree)
    return tree, counts
