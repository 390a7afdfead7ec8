"""Reviewed-instance comparison: is every function of the current tree still
equivalent, in the gated value-dependence form, to the instance that was reviewed?

verdict of a function
  SAME   same syntax and same name resolution (nothing to analyse)
  EQ     different text, equal normal form
  DIFF   a decided difference, with the sites
  UNK    restructured beyond what the term algebra relates (never an alarm)
  GONE   no such function any more
"""
import ast
import os
import time

from .model import Program, AnalysisBroken, FuncInfo, Module, dotted
from .nf import Interp, S, subterms, is_generator
from .confined import Confined
from .hard import Hard
from .kept import shared_containers
from .flatcopy import flat_copies
from .equiv import Purity, Collector, Cmp, Budget, EQ, DIFF, UNK, apply_all, abstract
from .extent import rewritten

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFROOT = os.path.join(HERE, 'ref')
TIME = 60.0


class NormDump(ast.NodeVisitor):
    pass


def strip_doc(body):
    out = []
    for s in body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Pass):
            continue
        out.append(s)
    return out


class _Canon(ast.NodeTransformer):
    def generic_body(self, node):
        self.generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list):
                setattr(node, f, strip_doc(b))
        if hasattr(node, 'returns'):
            node.returns = None
        return node

    visit_FunctionDef = visit_ClassDef = visit_If = visit_For = visit_While = visit_Try = visit_With = generic_body
    visit_ExceptHandler = generic_body

    def visit_arg(self, node):
        node.annotation = None
        return node


def canon_dump(node):
    import copy
    n = _Canon().visit(copy.deepcopy(node))
    return ast.dump(n)


def module_attrs(prog, f):
    """(module, name) for each module.name of the package in a function"""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute):
            d = dotted(x.value)
            if d is None:
                continue
            r = prog.lookup(f.mod.name, d.split('.')[0])
            for p in d.split('.')[1:]:
                r = prog.lookup(r.name, p) if isinstance(r, Module) else None
            if isinstance(r, Module):
                yield r.name, x.attr


def is_logger(m, n):
    return all(isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'getLogger' for e in m.assigns[n])


def free_names(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name):
            out.add(x.id)
    return out


class RefCmp:
    def __init__(self, cur, refroot=REFROOT):
        self.cur = cur
        if not os.path.isdir(os.path.join(refroot, 'nephosem')):
            raise AnalysisBroken('reference instances are missing: %s' % refroot)
        self.ref = Program(refroot)
        self.rf = {f.qual: f for f in self.ref.funcs}
        self.cf = {f.qual: f for f in self.cur.funcs}
        self.common = set(self.rf) & set(self.cf)
        for q in self.common:
            flat_copies(self.rf[q], self.cf[q])
        self.sigchanged = {q for q in self.common if self.sig(self.rf[q]) != self.sig(self.cf[q])}
        self.pmaps = {}
        for q in self.common:
            if q in self.sigchanged:
                continue
            pa = self.rf[q].params() + self.rf[q].kwonly()
            pb = self.cf[q].params() + self.cf[q].kwonly()
            m = {y: x for x, y in zip(pa, pb) if x != y}
            va, vb = self.rf[q].node.args, self.cf[q].node.args
            for k, pre in (('vararg', '*'), ('kwarg', '**')):
                x, y = getattr(va, k), getattr(vb, k)
                if x is not None and y is not None and x.arg != y.arg:
                    m[pre + y.arg] = pre + x.arg
                    m[y.arg] = x.arg
            if m:
                self.pmaps[q] = m
        self._pur = {}
        self.attrs = self.known_attrs()
        self.memo = {}
        self._extent = {}
        self._changed = None
        self._verdicts = None
        self._modsame = {}
        self.evaluated = set()
        for mn, A in self.ref.modules.items():
            B = self.cur.modules.get(mn)
            for n in A.assigns if B is not None else ():
                if n in B.assigns and not is_logger(A, n) and not (self.ref.fixed_global(A, n) and self.cur.fixed_global(B, n)) and \
                        not self._global_same(mn, mn, n):
                    self.ref.volatile.add((mn, n))
                    self.cur.volatile.add((mn, n))

    @staticmethod
    def sig(f):
        a = f.node.args
        return (len(f.params()), len(f.kwonly()), a.vararg is not None, a.kwarg is not None, f.is_static, f.is_classmethod,
                f.is_property)

    def known_attrs(self):
        s = set()
        for f in self.ref.funcs:
            s.add(f.name)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    s.add(n.attr)
        return s

    def purity(self, prog):
        if id(prog) not in self._pur:
            self._pur[id(prog)] = Purity(prog, None if prog is self.ref else self.purity(self.ref))
        return self._pur[id(prog)]

    # ---- textual identity
    def resolves_same(self, q):
        a, b = self.rf[q], self.cf[q]
        for n in free_names(a.node):
            if not self.global_same(a.mod.name, b.mod.name, n):
                return False
        for mod, n in module_attrs(self.ref, a):
            if mod not in self.cur.modules or not self.global_same(mod, mod, n):
                return False
        return True

    def global_same(self, ma, mb, n):
        k = (ma, mb, n)
        if k in self._modsame:
            return self._modsame[k]
        self._modsame[k] = True
        r = self._global_same(ma, mb, n)
        self._modsame[k] = r
        return r

    def _global_same(self, ma, mb, n):
        A, B = self.ref.modules.get(ma), self.cur.modules.get(mb)
        x, y = self.ref.lookup(ma, n), self.cur.lookup(mb, n)

        def desc(r):
            if r is None:
                return None
            d = []
            for z in (r if isinstance(r, tuple) else (r,)):
                if hasattr(z, 'qual'):
                    d.append(z.qual)
                elif hasattr(z, 'name') and hasattr(z, 'tree'):
                    d.append('mod:' + z.name)
                elif isinstance(z, ast.AST):
                    d.append(ast.dump(z))
                elif isinstance(z, list):
                    d.append([ast.dump(e) if isinstance(e, ast.AST) else e for e in z])
                else:
                    d.append(z)
            return d
        if desc(x) != desc(y):
            return False
        if isinstance(x, tuple) and x[0] == 'assign' and x[1].name != ma:
            return self.global_same(x[1].name, y[1].name, x[2])
        if A is not None and B is not None and n in A.assigns and n in B.assigns:
            ea = [ast.dump(e) if e is not None else None for e in A.assigns[n]]
            eb = [ast.dump(e) if e is not None else None for e in B.assigns[n]]
            if ea != eb:
                return False
            for e in A.assigns[n]:
                if e is not None and not all(self.global_same(ma, mb, z) for z in free_names(e)):
                    return False
        return True

    def same_text(self, q):
        a, b = self.rf[q], self.cf[q]
        if canon_dump(a.node) != canon_dump(b.node):
            return False
        return self.resolves_same(q)

    def changed(self):
        if self._changed is None:
            self._changed = {q for q in self.common if not self.same_text(q)}
        return self._changed

    # ---- normal forms
    def summary(self, prog, fi, inline, deadline, self_cls=None):
        common = self.common - self.sigchanged - set(inline)

        def opaque(f):
            return f.qual in common
        it = Interp(prog, opaque=opaque)
        args = {}
        if fi.name == '__init__' and fi.cls is not None:
            pass
        res = it.run(fi, args)
        self.evaluated |= it.visited_funcs
        if time.time() > deadline:
            raise Budget('time')
        return Collector(res, self.purity(prog)).run()

    def compare(self, q, inline=(), tries=0, t0=None):
        """-> (status, [(pairs, loc, what)])"""
        t0 = t0 or time.time()
        deadline = t0 + TIME
        key = (q, frozenset(inline))
        if key in self.memo:
            return self.memo[key]
        try:
            a = self.summary(self.ref, self.rf[q], inline, deadline)
            b = self.summary(self.cur, self.cf[q], inline, deadline)
            self.rename_rcalls(b)
            c = Cmp(a, b, self.ref, self.cur, self.pmaps.get(q, {}), self.attrs, deadline, set(self.rf), set(self.cf))
            c.visible = self.purity(self.cur).visible
            res = c.run()
        except Budget as e:
            self.memo[key] = (UNK, [(UNK, (), self.cf[q].loc, 'budget: %s' % e)])
            return self.memo[key]
        except RecursionError:
            self.memo[key] = (UNK, [((), self.cf[q].loc, 'recursion limit')])
            return self.memo[key]
        st = verdict(res)
        # parameter defaults
        if not inline:
            for d in self.defaults(q):
                res.append((DIFF,) + d)
                if st == EQ:
                    st = DIFF
        if st != EQ and c.want_inline and tries < 2:
            more = {x for x in c.want_inline if x in self.common or x in self.rf or x in self.cf}
            more -= set(inline)
            more = {x for x in more if x in self.common and not x.endswith('.__init__') and not self.virtual(x)}
            if more:
                r2 = self.compare(q, frozenset(inline) | more, tries + 1, t0)
                if r2[0] == EQ or (r2[0] == DIFF and st == UNK):
                    self.memo[key] = r2
                    return r2
        out = (st, [x for x in res])
        self.memo[key] = out
        return out

    def virtual(self, q):
        """abstract, or overridden somewhere: its body does not stand for a call of it"""
        for prog, fs in ((self.ref, self.rf), (self.cur, self.cf)):
            f = fs.get(q)
            if f is None or f.cls is None:
                continue
            if abstract(f.node):
                return True
            for m in prog.modules.values():
                for c in m.classes.values():
                    if c is not f.cls and c.is_sub(f.cls) and any(g.cls is c and g.name == f.name for g in prog.funcs):
                        return True
        return False

    def defaults(self, q):
        a, b = self.rf[q], self.cf[q]
        if q in self.sigchanged:
            return []
        da, db = a.defaults(), b.defaults()
        out = []
        for p, pc in zip(a.params() + a.kwonly(), b.params() + b.kwonly()):
            x, y = da.get(p), db.get(pc)
            if (x is None) != (y is None):
                if y is None:
                    out.append(((), b.loc, 'parameter %s lost its default' % p))
                continue
            if x is not None and ast.dump(x) != ast.dump(y):
                try:
                    vx, vy = ast.literal_eval(x), ast.literal_eval(y)
                except ValueError:
                    continue
                if vx != vy or type(vx) is not type(vy):
                    out.append((((('const', repr(vx)), ('const', repr(vy))),), b.loc, 'default of parameter %s is %r, reviewed %r' % (
                        p, vy, vx)))
        return out

    def rename_rcalls(self, s):
        if not self.pmaps:
            return

        def f(x):
            if x and x[0] == 'rcall' and x[1] in self.pmaps:
                m = self.pmaps[x[1]]
                return ('rcall', x[1], tuple((m.get(p, p), self._rw(v, f)) for p, v in x[2])) + x[3:]
            return None
        apply_all(s, f)

    def _rw(self, v, f):
        from .equiv import rewrite
        return rewrite(v, f) if isinstance(v, tuple) else v

    # ---- verdicts for everything
    def verdicts(self):
        if self._verdicts is not None:
            return self._verdicts
        V = {}
        for q in self.rf:
            if q not in self.cf:
                V[q] = ('GONE', [])
        ch = self.changed()
        for q in self.common - ch:
            V[q] = ('SAME', [])
        own = {}
        for q in sorted(ch):
            if q in self.sigchanged:
                own[q] = (UNK, [(UNK, (), self.cf[q].loc, 'signature changed')])
            else:
                own[q] = self.compare(q)
        nonEq = {q for q in own if own[q][0] != EQ}
        for q in ch - nonEq:
            V[q] = (EQ, [])
        # clusters of functions that call each other
        adj = {q: set() for q in nonEq}
        byname = {}
        for q in nonEq:
            byname.setdefault(q.rsplit('.', 1)[-1], set()).add(q)
            if q.endswith('.__init__'):
                byname.setdefault(q.split('.')[-2], set()).add(q)
        callees = {q: set() for q in nonEq}
        for q in nonEq:
            for f in (self.rf[q], self.cf[q]):
                for nm in self.reach_names(f, self.ref if f is self.rf[q] else self.cur):
                    for t in byname.get(nm, ()):
                        if t != q:
                            callees[q].add(t)
        for q in nonEq:
            for t in callees[q]:
                adj[q].add(t)
                adj[t].add(q)
        seen = set()
        for q in sorted(nonEq):
            if q in seen:
                continue
            comp, todo = set(), [q]
            while todo:
                x = todo.pop()
                if x in comp:
                    continue
                comp.add(x)
                todo.extend(adj[x] - comp)
            seen |= comp
            if len(comp) == 1:
                V[q] = self.alone(q, own[q], nonEq)
                continue
            roots = {x for x in comp if not any(x in callees[y] for y in comp if y != x)} or set(comp)
            rv = {}
            for r in roots:
                if r in self.sigchanged:
                    rv[r] = own[r]
                else:
                    rv[r] = self.compare(r, frozenset(comp - {r}))
            if all(v[0] == EQ for v in rv.values()):
                for x in comp:
                    V[x] = (EQ, [])
            else:
                bad = any(v[0] == DIFF for v in rv.values())
                unk = any(v[0] == UNK for v in rv.values())
                for x in comp:
                    if x in rv:
                        V[x] = rv[x]
                        if rv[x][0] == UNK and own[x][0] == DIFF and not bad:
                            # the callees' changes could not be related: the root's own change may compensate them
                            V[x] = (UNK, rv[x][1])
                    elif own[x][0] == DIFF and bad and not unk:
                        V[x] = own[x]
                    else:
                        V[x] = (UNK, own[x][1])
        for q in sorted(ch):
            if V[q][0] == DIFF and self.extent(q):
                keep = [r for r in V[q][1] if str(r[3]).startswith('default of parameter') or 'lost its default' in str(r[3])]
                V[q] = (DIFF, keep) if keep else (UNK, [(UNK, (), self.cf[q].loc, 'rewritten (%d tokens deleted, %d inserted)' % self.extent(q))] + [
                    (UNK,) + tuple(r[1:]) for r in V[q][1]])
        hard = Hard(self, ch)
        for q in sorted(ch):
            if V[q][0] in (UNK, EQ):
                h = hard.of(q)
                if V[q][0] == EQ:
                    h = [r for r in h if r[1] and r[1][0][1][0] == 'unbound']
                if h:
                    V[q] = (DIFF, h + [r for r in V[q][1] if r[0] == DIFF])
        self._verdicts = V
        return V

    def extent(self, q):
        if q not in self._extent:
            self._extent[q] = None if os.environ.get('SA_NOGATE') else rewritten(self.rf[q].node, self.cf[q].node)
        return self._extent[q]

    def alone(self, q, own, nonEq):
        """the only differing function of its call cluster: try the edit itself"""
        if q in self.sigchanged or q in self.pmaps:
            return own
        if self.rf[q].cls is not None and any(x != q and self.kin(x, q) for x in nonEq):
            return own
        try:
            d = Confined(self, q).decide()
        except AnalysisBroken:
            return own
        if d is None:
            return own
        st, res, where = d
        if st == EQ:
            keep = [r for r in own[1] if r[1] == () and 'parameter' in str(r[3])] + [
                r for r in own[1] if str(r[3]).startswith('default of parameter')]
            return (DIFF, keep) if keep else (EQ, [])
        if st == DIFF:
            both = [r for r in own[1] if r[0] == DIFF] + [r for r in res if r[0] == DIFF]
            return (DIFF, both)
        if own[0] == DIFF:
            return own
        if len(where) == 1 and any(r[0] == DIFF for r in own[1]):
            return (DIFF, [r for r in own[1] if r[0] == DIFF])
        return own

    def kin(self, p, q):
        a, b = self.cf[p].cls, self.cf[q].cls
        return a is not None and b is not None and (a is b or a.is_sub(b) or b.is_sub(a))

    def reach_names(self, f, prog):
        """names called by f, looking through functions that exist in one program only"""
        out, todo, seen = set(), [f], set()
        byname = {}
        for g in prog.funcs:
            if g.qual not in self.common:
                byname.setdefault(g.name, []).append(g)
        while todo:
            g = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            for n in ast.walk(g.node):
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if nm:
                    out.add(nm)
                    todo.extend(byname.get(nm, ()))
        return out

    # ---- classes and constants
    def class_diffs(self):
        out = [(q + '.' + n, line, 'container attribute %s is now shared by all objects' % n) for q, n, line in shared_containers(self)]
        rc = {c.qual: c for m in self.ref.modules.values() for c in m.classes.values()}
        cc = {c.qual: c for m in self.cur.modules.values() for c in m.classes.values()}
        for q, a in rc.items():
            b = cc.get(q)
            if b is None:
                continue
            if [x.qual for x in a.bases] != [x.qual for x in b.bases]:
                out.append((q, b.node.lineno, 'base classes'))
            for n, e in a.consts.items():
                if n not in b.consts:
                    continue
                if ast.dump(e) != ast.dump(b.consts[n]) and isinstance(e, ast.Constant) and isinstance(b.consts[n], ast.Constant):
                    out.append((q + '.' + n, b.node.lineno, 'class constant %s is %r, reviewed %r' % (
                        n, b.consts[n].value, e.value)))
        return out


def related(pairs):
    """could several differing pairs compensate each other? (same loop variables involved)"""
    return False


def verdict(res):
    if any(r[0] not in (DIFF,) for r in res):
        return UNK
    return DIFF if res else EQ
