"""A deep copy of a container of strings and numbers may be written as a shallow one.

Where a reviewed function copies X deeply and the current one copies the same X as a container (list(X), dict(X),
X.copy(), copy(X), X[:], [*X], {**X}), the current copy is read as the deep one, unless X is one of the containers
whose elements are changed in place elsewhere (DEEP)."""
import ast
import copy
from collections import Counter

from .model import dotted

# containers of lists, matrices or objects of the package, and objects
DEEP = {'tokens', 'comms', 'committees', 'macros', 'templates', 'matrix', 'matched_nodes', 'matched_edges', 'self', 'cls', 'clusters', 'graph',
        'vocab', 'row_vocab', 'col_vocab', 'freqmx', 'collocs', 'lcollocs', 'rcollocs'}


def last_name(x):
    while isinstance(x, ast.Subscript):
        x = x.value
    return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None


def deep(n):
    """X of deepcopy(X)"""
    if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and dotted(n.func) in ('deepcopy', 'copy.deepcopy'):
        return n.args[0]


def shallow(n):
    """X of a shallow copy"""
    if isinstance(n, ast.Call) and not n.keywords:
        if len(n.args) == 1 and not isinstance(n.args[0], ast.Starred) and dotted(n.func) in ('list', 'dict', 'copy', 'copy.copy'):
            return n.args[0]
        if not n.args and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy':
            return n.func.value
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is n.slice.upper is n.slice.step is None and \
            isinstance(n.ctx, ast.Load):
        return n.value
    if isinstance(n, ast.List) and len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred) and isinstance(n.ctx, ast.Load):
        return n.elts[0].value
    if isinstance(n, ast.Dict) and len(n.keys) == 1 and n.keys[0] is None:
        return n.values[0]


class _Deepen(ast.NodeTransformer):
    def __init__(self, want, func):
        self.want, self.func, self.done = want, func, 0

    def generic_visit(self, n):
        n = super().generic_visit(n)
        x = shallow(n) if isinstance(n, ast.expr) else None
        if x is not None:
            k = ast.dump(x)
            if self.want.get(k, 0) > 0:
                self.want[k] -= 1
                self.done += 1
                new = ast.Call(func=copy.deepcopy(self.func), args=[x], keywords=[])
                return ast.fix_missing_locations(ast.copy_location(new, n))
        return n


def flat_copies(rf, cf):
    """rewrite the current function; the number of copies read as deep ones"""
    want, func = Counter(), None
    for n in ast.walk(rf.node):
        x = deep(n)
        if x is not None and last_name(x) is not None and last_name(x) not in DEEP:
            want[ast.dump(x)] += 1
            func = n.func
    if not want:
        return 0
    for n in ast.walk(cf.node):
        x = deep(n)
        if x is not None:
            want[ast.dump(x)] -= 1
    if not any(v > 0 for v in want.values()):
        return 0
    t = _Deepen(want, func)
    cf.node.body = [t.visit(s) for s in cf.node.body]
    if t.done:
        name = dotted(func).split('.')[0]
        if name not in cf.mod.all_names and name in rf.mod.imports:
            cf.mod.imports[name] = rf.mod.imports[name]
            cf.mod.all_names.add(name)
    return t.done
