"""Behaviour-preserving respellings of single expressions and statements (calibration only)."""
import ast
import copy

L, St = ast.Load, ast.Store


def nm(i, ctx=None):
    return ast.Name(i, ctx or L())


def call(f, *a):
    return ast.Call(func=nm(f) if isinstance(f, str) else f, args=list(a), keywords=[])


def simple(e):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Load)) for x in ast.walk(e))


def isname(n, *names):
    return isinstance(n, ast.Name) and n.id in names


def e_empty_literal(n, c):
    if isinstance(n, ast.List) and not n.elts and isinstance(n.ctx, ast.Load):
        return call('list')
    if isinstance(n, ast.Dict) and not n.keys:
        return call('dict')


def e_in_keys(n, c):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
        r = n.comparators[0]
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == 'keys' and not r.args:
            return ast.Compare(n.left, n.ops, [r.func.value])


def e_range0(n, c):
    if isinstance(n, ast.Call) and isname(n.func, 'range') and len(n.args) == 1:
        return call('range', ast.Constant(0), n.args[0])


def e_slice0(n, c):
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is not None and n.slice.step is None:
        return ast.Subscript(n.value, ast.Slice(ast.Constant(0), n.slice.upper, None), n.ctx)


def e_ifexp_swap(n, c):
    if isinstance(n, ast.IfExp):
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


def e_not_cmp(n, c):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        t = m.get(type(n.ops[0]))
        if t:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [t()], n.comparators))


def e_comp_map(n, c):
    if isinstance(n, ast.ListComp) and len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
        g = n.generators[0]
        a = ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
        return call('list', call('map', ast.Lambda(a, n.elt), g.iter))


def e_gen_list(n, c):
    if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp) and (
            isname(n.func, 'sum', 'any', 'all', 'set', 'sorted', 'max', 'min', 'tuple', 'dict') or
            isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and isinstance(n.func.value, ast.Constant)):
        return ast.Call(n.func, [ast.GeneratorExp(n.args[0].elt, n.args[0].generators)], n.keywords)


def e_list_gen(n, c):
    if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and isname(n.func, 'sum', 'any', 'all', 'set', 'sorted', 'tuple', 'list'):
        return ast.Call(n.func, [ast.ListComp(n.args[0].elt, n.args[0].generators)], n.keywords)


def e_set_comp(n, c):
    if isinstance(n, ast.SetComp):
        return call('set', ast.ListComp(n.elt, n.generators))
    if isinstance(n, ast.Call) and isname(n.func, 'set') and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
        return ast.SetComp(n.args[0].elt, n.args[0].generators)


def e_isinstance_or(n, c):
    if isinstance(n, ast.Call) and isname(n.func, 'isinstance') and isinstance(n.args[1], ast.Tuple) and simple(n.args[0]):
        return ast.BoolOp(ast.Or(), [call('isinstance', n.args[0], t) for t in n.args[1].elts])


def e_dict_comp(n, c):
    if isinstance(n, ast.DictComp):
        return call('dict', ast.ListComp(ast.Tuple([n.key, n.value], L()), n.generators))
    if isinstance(n, ast.Call) and isname(n.func, 'dict') and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and isname(n.args[0].func, 'zip') and len(n.args[0].args) == 2:
        return ast.DictComp(nm('zk_'), nm('zv_'), [ast.comprehension(ast.Tuple([nm('zk_', St()), nm('zv_', St())], St()), n.args[0], [], 0)])


def e_or_ifexp(n, c):
    if isinstance(n, ast.IfExp) and ast.dump(n.test) == ast.dump(n.body) and simple(n.test):
        return ast.BoolOp(ast.Or(), [n.test, n.orelse])


def e_super(n, c):
    if isinstance(n, ast.Call) and isname(n.func, 'super') and len(n.args) == 2:
        return call('super')


def e_tuple_in(n, c):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
        r = n.comparators[0]
        if isinstance(r, (ast.Tuple, ast.List)) and r.elts:
            return ast.Compare(n.left, n.ops, [(ast.List if isinstance(r, ast.Tuple) else ast.Tuple)(r.elts, L())])


def e_in_eq(n, c):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and simple(n.left):
        r = n.comparators[0]
        if isinstance(r, (ast.Tuple, ast.List)) and r.elts and all(isinstance(x, ast.Constant) for x in r.elts):
            return ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [x]) for x in r.elts])


def e_append(n, c):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'append' and len(n.value.args) == 1:
        return ast.Expr(ast.Call(ast.Attribute(n.value.func.value, 'extend', L()), [ast.List([n.value.args[0]], L())], []))


def e_append_plus(n, c):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'append' and len(n.value.args) == 1 \
            and isinstance(n.value.func.value, ast.Name):
        return ast.AugAssign(nm(n.value.func.value.id, St()), ast.Add(), ast.List([n.value.args[0]], L()))


def e_commute(n, c):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
        return ast.BinOp(n.right, ast.Mult(), n.left)


def e_square(n, c):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and simple(n.left):
        return ast.BinOp(n.left, ast.Mult(), n.left)


def e_sub_neg(n, c):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and not isinstance(n.left, ast.Call):
        return ast.UnaryOp(ast.USub(), ast.BinOp(n.right, ast.Sub(), n.left))


def e_transpose(n, c):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'transpose' and not n.args and not isname(n.func.value, 'np', 'numpy', 'self'):
        return ast.Attribute(n.func.value, 'T', L())


def e_ge(n, c):
    """len(x) == 0 -> len(x) < 1, len(x) > 0 -> len(x) >= 1"""
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Call) and isname(n.left.func, 'len') and isinstance(n.comparators[0], ast.Constant) \
            and isinstance(n.comparators[0].value, int):
        v = n.comparators[0].value
        if isinstance(n.ops[0], ast.Eq) and v == 0:
            return ast.Compare(n.left, [ast.Lt()], [ast.Constant(1)])
        if isinstance(n.ops[0], ast.Gt):
            return ast.Compare(n.left, [ast.GtE()], [ast.Constant(v + 1)])
        if isinstance(n.ops[0], ast.LtE):
            return ast.Compare(n.left, [ast.Lt()], [ast.Constant(v + 1)])


def e_get(n, c):
    """d.get(k, x) -> d[k] if k in d else x"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) in (1, 2) and not n.keywords and not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'config') and simple(n.func.value) and simple(n.args[0]):
        d, k = n.func.value, n.args[0]
        return ast.IfExp(ast.Compare(k, [ast.In()], [d]), ast.Subscript(d, k, L()), n.args[1] if len(n.args) == 2 else ast.Constant(None))


def e_lambda_def(n, c):
    """key=lambda x: ... -> key=(a lambda with another parameter name)"""
    if isinstance(n, ast.Lambda) and len(n.args.args) == 1:
        o = n.args.args[0].arg
        b = copy.deepcopy(n.body)
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and x.id == o:
                x.id = 'arg_'
        return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('arg_')], kwonlyargs=[], kw_defaults=[], defaults=[]), b)


def e_sorted_list(n, c):
    if isinstance(n, ast.Call) and isname(n.func, 'sorted') and n.args and isinstance(n.args[0], ast.Call) and isname(n.args[0].func, 'list', 'set') and False:
        return n
    if isinstance(n, ast.Call) and isname(n.func, 'sorted') and n.args:
        return ast.Call(n.func, [call('list', n.args[0])] + n.args[1:], n.keywords)


def e_for_list(n, c):
    if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)):
        m = copy.copy(n)
        m.iter = call('list', n.iter)
        return m


def e_while_len(n, c):
    return None


def e_none_first(n, c):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
        return ast.Compare(n.comparators[0], n.ops, [n.left])


def e_return_bool(n, c):
    """return a < b -> if a < b: return True / else: return False"""
    if isinstance(n, ast.Return) and isinstance(n.value, ast.Compare) and len(n.value.ops) == 1 and isinstance(n.value.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
        return ast.If(n.value, [ast.Return(ast.Constant(True))], [ast.Return(ast.Constant(False))])


def e_else_none(n, c):
    if isinstance(n, ast.Return) and n.value is None:
        return ast.Return(ast.Constant(None))


def e_ret_tuple(n, c):
    return None


def e_aug(n, c):
    if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, str)):
        t = copy.deepcopy(n.target)
        for x in ast.walk(t):
            if hasattr(x, 'ctx'):
                x.ctx = L()
        return ast.Assign([n.target], ast.BinOp(t, ast.Add(), n.value))


def e_star(n, c):
    if isinstance(n, ast.Call) and isname(n.func, 'list') and len(n.args) == 1:
        return ast.List([ast.Starred(n.args[0], L())], L())


def e_format_pct(n, c):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and not n.keywords \
            and isinstance(n.func.value.value, str) and n.func.value.value.count('{}') == len(n.args) == n.func.value.value.count('{') and '%' not in n.func.value.value:
        parts = n.func.value.value.split('{}')
        e = None
        for i, p in enumerate(parts):
            if p or e is None:
                e = ast.Constant(p) if e is None else ast.BinOp(e, ast.Add(), ast.Constant(p))
            if i < len(n.args):
                e = ast.BinOp(e, ast.Add(), call('str', n.args[i]))
        return e


def e_setdefault(n, c):
    """if k not in d: d[k] = v -> d.setdefault(k, v)"""
    if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 \
            and isinstance(n.test.ops[0], ast.NotIn) and len(n.body[0].targets) == 1:
        t = n.body[0].targets[0]
        if isinstance(t, ast.Subscript) and ast.dump(t.value) == ast.dump(n.test.comparators[0]) and ast.dump(t.slice) == ast.dump(n.test.left) \
                and isinstance(n.body[0].value, (ast.Constant, ast.List, ast.Dict)):
            return ast.Expr(ast.Call(ast.Attribute(t.value, 'setdefault', L()), [t.slice, n.body[0].value], []))


def e_items_keys(n, c):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'items' and isinstance(n.target, ast.Tuple) \
            and all(isinstance(x, ast.Name) for x in n.target.elts) and simple(n.iter.func.value):
        k, v = n.target.elts
        m = copy.copy(n)
        m.target = nm(k.id, St())
        m.iter = n.iter.func.value
        m.body = [ast.Assign([nm(v.id, St())], ast.Subscript(n.iter.func.value, nm(k.id), L()))] + n.body
        return m


def e_and_nested(n, c):
    if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
        vs = n.test.values
        inner = ast.If(vs[-1], n.body, [])
        return ast.If(vs[0] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[:-1]), [inner], [])


def e_demorgan(n, c):
    if isinstance(n, ast.BoolOp) and len(n.values) == 2 and c.get('test'):
        return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.values]))


def e_try_else(n, c):
    return None


def e_const_pos(n, c):
    """keyword constant arguments of numpy-like calls: axis=0 stays; x=1 -> x=1 (reordered keywords)"""
    if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords):
        return ast.Call(n.func, n.args, list(reversed(n.keywords)))


def e_walrus_tmp(n, c):
    return None


def e_with_join(n, c):
    if isinstance(n, ast.With) and len(n.items) == 1 and len(n.body) > 0:
        return None


def e_os_join3(n, c):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 3 and ast.unparse(n.func.value) == 'os.path':
        return ast.Call(n.func, [ast.Call(n.func, n.args[:2], []), n.args[2]], [])


def e_copy_dict(n, c):
    if isinstance(n, ast.Call) and isname(n.func, 'dict') and len(n.args) == 1 and simple(n.args[0]) and not n.keywords:
        return ast.Dict([None], [n.args[0]])


def e_unpack_pair(n, c):
    """a, b = x, y -> two assignments via a block"""
    return None


def e_for_enumerate(n, c):
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isname(n.iter.func, 'enumerate') and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and \
            simple(n.iter.args[0]) and all(isinstance(x, ast.Name) for x in n.target.elts):
        i, v = n.target.elts
        m = copy.copy(n)
        m.target = nm(i.id, St())
        m.iter = call('range', call('len', n.iter.args[0]))
        m.body = [ast.Assign([nm(v.id, St())], ast.Subscript(n.iter.args[0], nm(i.id), L()))] + n.body
        return m


def e_elif_split(n, c):
    return None


def e_bool_cast(n, c):
    if isinstance(n, ast.If) and not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
        return ast.If(call('bool', n.test), n.body, n.orelse)


def e_neg_index(n, c):
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.op, ast.USub) and simple(n.value) and isinstance(n.ctx, ast.Load):
        return ast.Subscript(n.value, ast.BinOp(call('len', n.value), ast.Sub(), n.slice.operand), L())


def e_open_mode(n, c):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'strip' and not n.args:
        return ast.Call(ast.Attribute(ast.Call(ast.Attribute(n.func.value, 'lstrip', L()), [], []), 'rstrip', L()), [], [])


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('e_')}


class Sites(ast.NodeTransformer):
    """apply kind k at the i-th site (i=None: count only, i=-1: everywhere)"""
    def __init__(self, f, i):
        self.f, self.i, self.n, self.test = f, i, 0, False

    def visit(self, node):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)) and getattr(self, 'top', None) is None:
            self.top = node
            return super().generic_visit(node)
        intest = False
        node = self.kids(node)
        r = self.f(node, {'test': self.test})
        if r is not None:
            k = self.n
            self.n += 1
            if self.i == -1 or self.i == k:
                return ast.copy_location(r, node) if isinstance(r, ast.AST) else r
        return node

    def kids(self, node):
        was = self.test
        for f, old in ast.iter_fields(node):
            self.test = f == 'test' or was and isinstance(node, (ast.BoolOp, ast.UnaryOp)) and f in ('values', 'operand')
            if isinstance(old, list):
                new = []
                for x in old:
                    new.append(self.visit(x) if isinstance(x, ast.AST) else x)
                old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, f, self.visit(old))
        self.test = was
        return node


def apply(fn, kind, i):
    s = Sites(KINDS[kind], i)
    s.visit(fn)
    ast.fix_missing_locations(fn)
    return s.n
