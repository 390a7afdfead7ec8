"""C11: results are reproducible.

U1: an unordered source - a set, the listing of a directory, results in order of completion - may be counted, tested
for membership, summed or sorted, but no reviewed function fixes an order from one (a list, tuple, string, queue,
numbering or dictionary filled from it) without sorting, beyond the reviewed places where the order is irrelevant.
Rule R: the functions that fix orders are equivalent to their reviewed instances; rule K: so is every other function
as far as sorting and unordered collections are concerned."""
import ast

from ..model import dotted
from .common import refcmp, reference

FLOOR = 100
LISTING = {'os.listdir', 'os.walk', 'os.scandir', 'glob.glob', 'glob.iglob'}
UNORDERED_METHODS = {'imap_unordered', 'iterdir', 'rglob'}
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference', 'copy'}
FIX = {'list', 'tuple', 'enumerate', 'zip', 'iter', 'next', 'map', 'filter', 'reversed'}


WEAK = 'fills a dictionary or array'     # whose order may play no role


def live(name):
    return not (name == 'nephosem.deprel' or name.startswith(('nephosem.deprel.', 'nephosem.tests')))


class Scan:
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.at = None     # the site that is judged: a name it defines is not yet defined by it
        self.par = {c: p for p in ast.walk(f.node) for c in ast.iter_child_nodes(p)}
        self.defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) and \
                            all(isinstance(x, ast.Name) for x in t.elts):
                        for x, v in zip(t.elts, n.value.elts):
                            self.defs.setdefault(x.id, []).append(v)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.defs.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
                self.defs.setdefault(n.target.id, []).append(n.value if isinstance(n, ast.NamedExpr) else None if isinstance(n, ast.AnnAssign) else n)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(None)
        a = f.node.args
        for x in a.args + a.kwonlyargs + a.posonlyargs:
            self.defs.setdefault(x.arg, []).append(None)
        # names that are sorted somewhere in the function
        self.sorted = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == 'sort' and isinstance(n.func.value, ast.Name):
                    self.sorted.add(n.func.value.id)
                if isinstance(n.func, ast.Name) and n.func.id == 'sorted' and n.args:
                    self.sorted |= {x.id for x in ast.walk(n.args[0]) if isinstance(x, ast.Name)}

    def ext(self, e):
        d = dotted(e)
        if d is None:
            return None
        r = self.prog.lookup(self.f.mod.name, d.split('.')[0])
        if isinstance(r, tuple) and r and r[0] == 'ext':
            return '.'.join([r[1]] + d.split('.')[1:])
        return d if r is None else None

    def source(self, e, seen=()):
        """what makes e unordered, or None"""
        if isinstance(e, (ast.Set, ast.SetComp)):
            return 'a set'
        if isinstance(e, ast.Call):
            nm = self.ext(e.func)
            if nm in ('set', 'frozenset'):
                return 'a set'
            if nm in LISTING:
                return nm
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in UNORDERED_METHODS:
                    return e.func.attr
                if e.func.attr in SETOPS:
                    return self.source(e.func.value, seen)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            return self.source(e.left, seen) or (self.source(e.right, seen) if not isinstance(e.op, ast.Sub) else None)
        if isinstance(e, ast.Name) and e.id not in seen and e.id in self.defs and e.id not in self.sorted:
            ss = []
            for v in self.defs[e.id]:
                if v is None:
                    return None
                if isinstance(v, ast.AugAssign) or v is not None and self.at is not None and any(x is self.at for x in ast.walk(v)):
                    continue
                s = self.source(v, seen + (e.id,))
                if s is None:
                    return None
                ss.append(s)
            return ss[0] if ss else None
        return None

    def tamed(self, n):
        """the value made at n does not carry the order on: it is sorted, counted, tested or made a set again"""
        p = self.par.get(n)
        while p is not None:
            if isinstance(p, ast.Call) and n is not p.func:
                d = dotted(p.func) or (p.func.attr if isinstance(p.func, ast.Attribute) else '')
                d = d.rsplit('.', 1)[-1]
                if d in ('sorted', 'set', 'frozenset', 'len', 'sum', 'min', 'max', 'any', 'all', 'sort', 'Counter', 'unique', 'update', 'isdisjoint',
                         'issubset', 'union', 'intersection', 'difference', 'bool', 'nansum', 'isin', 'in1d'):
                    return True
            elif isinstance(p, ast.Compare):
                return True
            elif isinstance(p, (ast.Assign, ast.AnnAssign)):
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                return all(isinstance(t, ast.Name) and t.id in self.sorted for t in ts)
            elif isinstance(p, (ast.stmt, ast.SetComp)):
                return isinstance(p, ast.SetComp)
            n, p = p, self.par.get(p)
        return False

    def orders(self, loop):
        """does the body of a loop keep the order of its iterations?"""
        weak = None
        for s in loop.body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    return 'yields'
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'put', 'write', 'appendleft'):
                    r = n.func.value
                    if isinstance(r, ast.Name) and r.id in self.sorted:
                        continue
                    return 'uses ' + n.func.attr
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    r = n.value
                    while isinstance(r, (ast.Subscript, ast.Attribute)):
                        r = r.value
                    if isinstance(r, ast.Name) and r.id in {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}:
                        continue
                    weak = WEAK
        return weak

    def sites(self):
        for n in ast.walk(self.f.node):
            self.at = n if isinstance(n, ast.expr) else None
            if isinstance(n, ast.For):
                s = self.source(n.iter)
                if s:
                    o = self.orders(n)
                    if o:
                        yield n, s, o if o == WEAK else 'a loop over it ' + o
                    else:
                        yield n, s, None
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                s = self.source(n.generators[0].iter)
                if s:
                    yield n, s, None if self.tamed(n) else WEAK if isinstance(n, ast.DictComp) else 'a comprehension over it'
            elif isinstance(n, ast.Call):
                nm = self.ext(n.func)
                if nm in FIX or nm in ('numpy.array', 'numpy.asarray', 'dict.fromkeys', 'pandas.Series', 'pandas.DataFrame') or \
                        isinstance(n.func, ast.Attribute) and n.func.attr in ('join', 'extend'):
                    for a in n.args:
                        s = self.source(a)
                        if s:
                            yield n, s, None if self.tamed(n) else 'made a sequence by %s' % (nm or n.func.attr)
                elif isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args and self.source(n.func.value) == 'a set':
                    yield n, 'a set', 'pop takes any element'
            elif isinstance(n, ast.Starred):
                s = self.source(n.value)
                if s:
                    yield n, s, None if self.tamed(n) else 'unpacked'


def scan(prog):
    out = {}
    for f in prog.funcs:
        if live(f.mod.name):
            out[f.qual] = (f, list(Scan(prog, f).sites()))
    return out


def run(ctx):
    ctx.rule('U1', 'no order is fixed from an unordered source')
    rc = refcmp(ctx)
    cur, ref = scan(ctx.prog), scan(rc.ref)

    def bad(t):
        return sum(1 for _, ss in t.values() for _, _, w in ss if w and w != WEAK)
    more = bad(cur) > bad(ref)
    for q, (f, ss) in sorted(cur.items()):
        had = [(s, w) for _, s, w in ref[q][1] if w] if q in ref else None
        k = 0
        for n, s, w in ss:
            k += 1
            key = '%s#%d' % (q, k)
            loc = '%s:%d' % (f.mod._rel, n.lineno)
            if w is None:
                ctx.ok('U1', key, '%s: the order plays no role' % s)
            elif had is None or w == WEAK:
                ctx.undecided('U1', key, 'not a reviewed function, or a container that is filled')
            elif len([1 for _, _, x in ss if x and x != WEAK]) > len(had) and more:
                ctx.bad('U1', key, loc, 'an order is fixed from %s: %s' % (s, w))
            else:
                ctx.ok('U1', key, 'reviewed: %s, %s' % (s, w))
    reference(ctx, floor=60)
