"""Effects of functions on the objects they are given.

A forward abstract interpretation of the syntax tree: each local name holds a set of origins, (parameter, attribute,
alias | copy); assignments are strong updates, branches and loops join.  The summary of a function is

 mut     (parameter, attribute) pairs whose object is changed in place: element and attribute stores, deletions,
         augmented stores, mutating methods, in-place library calls, and calls of package functions that do so
 ret     the origins its result may have
 keep    (attribute of self, parameter, alias | copy): what is stored in the object

computed for the whole program until nothing changes."""
import ast

from ..model import ClassInfo, FuncInfo, dotted

MUTATE = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard',
          'difference_update', 'intersection_update', 'symmetric_difference_update', 'eliminate_zeros', 'setdiag', 'resize', 'fill', 'itemset',
          'popleft', 'appendleft', 'extendleft', 'prune', 'add_node', 'add_edge', 'add_nodes_from', 'add_edges_from', 'remove_node',
          'remove_edge', 'remove_nodes_from', 'remove_edges_from', 'subtract', 'move_to_end', '__setitem__', '__delitem__', 'setflags',
          'drop_duplicates_inplace'}
VIEW = {'get', 'setdefault', 'pop', 'popitem', 'popleft', 'items', 'values', 'transpose', 'ravel', 'view', 'tocsr', 'asfptype', '__getitem__', 'reshape',
        'squeeze'}
COPY = {'copy.deepcopy', 'copy.copy', 'dict', 'list', 'set', 'tuple', 'sorted', 'numpy.array', 'numpy.copy', 'collections.OrderedDict',
        'collections.Counter', 'frozenset', 'deepcopy', 'copy', 'collections.deque'}
SAME = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ravel', 'numpy.squeeze', 'numpy.transpose', 'numpy.reshape', 'iter', 'enumerate', 'zip', 'reversed', 'next',
        'itertools.chain'}
INPLACE = {'random.shuffle', 'numpy.random.shuffle', 'heapq.heapify', 'heapq.heappush', 'heapq.heappop', 'numpy.fill_diagonal', 'numpy.put',
           'numpy.copyto', 'numpy.place', 'numpy.putmask', 'setattr', 'delattr', 'bisect.insort', 'operator.setitem', 'operator.delitem'}
# calls that share the data with copy=False, and those that then write into it
SHARES = {'tocoo', 'tocsr', 'tocsc', 'tobsr', 'todia', 'tolil', 'todok', 'astype', 'asformat', 'transpose', 'reshape', 'to_numpy'}
WORKS = {'numpy.nan_to_num', 'sklearn.preprocessing.normalize', 'sklearn.preprocessing.scale', 'sklearn.preprocessing.binarize',
         'sklearn.preprocessing.maxabs_scale', 'sklearn.preprocessing.minmax_scale', 'sklearn.preprocessing.robust_scale'}
NONE = frozenset()


def live(name):
    return not (name == 'nephosem.deprel' or name.startswith(('nephosem.deprel.', 'nephosem.tests')))


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.funcs = [f for f in prog.funcs if live(f.mod.name)]
        self.mut = {f.qual: set() for f in self.funcs}
        self.site = {}
        self.ret = {f.qual: set() for f in self.funcs}
        self.keep = {f.qual: set() for f in self.funcs}
        self.props, self.methods = {}, {}
        for f in self.funcs:
            if f.cls is not None and f.outer is None:
                (self.props if f.is_property else self.methods).setdefault(f.name, []).append(f)
        for _ in range(6):
            before = self.size()
            for f in self.funcs:
                One(self, f).run()
            if self.size() == before:
                break

    def size(self):
        return sum(len(s) for d in (self.mut, self.ret, self.keep) for s in d.values())


class One:
    def __init__(self, eff, f):
        self.e, self.f = eff, f
        self.ps = f.params() + f.kwonly()
        self.me = f.params()[0] if f.cls is not None and f.params() and not f.is_static else None

    def run(self):
        env = {p: frozenset([(p, '', 'a')]) for p in self.ps}
        self.block(self.f.node.body, env)

    # statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def join(self, env, *others):
        for k in set().union(*others):
            env[k] = frozenset().union(*[o.get(k, NONE) for o in others])

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.value(s.value, env)
            for t in s.targets:
                self.bind(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.value(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            self.value(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                v = env.get(t.id, NONE)
                grows = isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.ListComp)) or isinstance(
                    s.op, (ast.BitOr, ast.BitAnd)) and isinstance(s.value, (ast.Set, ast.SetComp, ast.Dict, ast.DictComp))
                scales = isinstance(s.op, (ast.Mult, ast.Div, ast.Sub, ast.Add, ast.Pow)) and any(a for p, a, k in v if k == 'a')
                if grows or scales and not isinstance(s.value, (ast.Constant, ast.JoinedStr)):
                    self.mutate(v, s, deep=scales and not grows)
                if not (grows or scales):
                    env[t.id] = NONE
            else:
                self.store(t, env)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.value(s.iter, env)
            out = dict(env)
            for _ in range(2):
                e = dict(out)
                self.bind(s.target, v, e, None)
                self.block(s.body, e)
                self.join(out, out, e)
            self.block(s.orelse, out)
            env.clear()
            env.update(out)
        elif isinstance(s, ast.While):
            out = dict(env)
            for _ in range(2):
                e = dict(out)
                self.value(s.test, e)
                self.block(s.body, e)
                self.join(out, out, e)
            self.block(s.orelse, out)
            env.clear()
            env.update(out)
        elif isinstance(s, ast.If):
            self.value(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            outs = [o for o, body in ((a, s.body), (b, s.orelse)) if not ends(body)]
            env.clear()
            self.join(env, *(outs or [a]))
        elif isinstance(s, ast.Try):
            a = dict(env)
            self.block(s.body, a)
            outs = []
            for h in s.handlers:
                e = dict(env)
                self.join(e, env, a)
                if h.name:
                    e[h.name] = NONE
                self.block(h.body, e)
                if not ends(h.body):
                    outs.append(e)
            self.block(s.orelse, a)
            env.clear()
            self.join(env, a, *outs)
            self.block(s.finalbody, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.value(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, None)
            self.block(s.body, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.e.ret[self.f.qual] |= self.value(s.value, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = NONE
                else:
                    self.store(t, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            e = dict(env)
            for a in s.args.args + s.args.kwonlyargs + s.args.posonlyargs:
                e[a.arg] = NONE
            saved = set(self.e.ret[self.f.qual])
            self.block(s.body, e)
            self.e.ret[self.f.qual] = saved
            env[s.name] = NONE
        elif isinstance(s, ast.ClassDef):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.value(c, env)

    def bind(self, t, v, env, src):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts):
                vs = [self.value(x, env) for x in src.elts]
                for x, w, y in zip(t.elts, vs, src.elts):
                    self.bind(x, w, env, y)
            else:
                for x in t.elts:
                    self.bind(x, v, env, None)
        else:
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me and \
                    env.get(self.me) == frozenset([(self.me, '', 'a')]):
                for p, a, k in v:
                    if p != self.me and a == '':
                        self.e.keep[self.f.qual].add((t.attr, p, k))
            self.store(t, env)

    def store(self, t, env):
        """t: attribute or subscript that is stored to or deleted"""
        if isinstance(t, ast.Attribute):
            self.mutate(frozenset((p, a or t.attr, k) for p, a, k in self.value(t.value, env)), t)
        elif isinstance(t, ast.Subscript):
            self.value(t.slice, env)
            self.mutate(self.value(t.value, env), t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, env)
        elif isinstance(t, ast.Starred):
            self.store(t.value, env)

    def mutate(self, v, node, deep=False):
        for p, a, k in v:
            if k == 'a' and not (deep and not a):
                self.e.mut[self.f.qual].add((p, a))
                self.e.site.setdefault((self.f.qual, p, a), '%s:%d' % (self.f.mod._rel, node.lineno))

    # expressions
    def value(self, n, env):
        if n is None:
            return NONE
        if isinstance(n, ast.Name):
            return env.get(n.id, NONE)
        if isinstance(n, ast.Attribute):
            v = self.value(n.value, env)
            if not v:
                return NONE
            fs = self.e.props.get(n.attr)
            if fs and not any(x.attr == n.attr for x in ()):
                if not any(k == 'a' for f in fs for _, _, k in self.e.ret[f.qual]):
                    return NONE
            return frozenset((p, a or n.attr, k) for p, a, k in v)
        if isinstance(n, ast.Subscript):
            v = self.value(n.value, env)
            self.value(n.slice, env)
            if isinstance(n.slice, (ast.Slice, ast.Tuple)):
                return NONE
            return v
        if isinstance(n, ast.IfExp):
            self.value(n.test, env)
            return self.value(n.body, env) | self.value(n.orelse, env)
        if isinstance(n, ast.BoolOp):
            return frozenset().union(*[self.value(x, env) for x in n.values])
        if isinstance(n, ast.NamedExpr):
            v = self.value(n.value, env)
            self.bind(n.target, v, env, n.value)
            return v
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                v = self.value(g.iter, e)
                self.bind(g.target, v, e, None)
                for c in g.ifs:
                    self.value(c, e)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.value(x, e)
            return NONE
        if isinstance(n, ast.Lambda):
            e = dict(env)
            for a in n.args.args:
                e[a.arg] = NONE
            self.value(n.body, e)
            return NONE
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, (ast.Starred, ast.Await)):
            return self.value(n.value, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.value(c, env)
        return NONE

    def target(self, n):
        """(FuncInfo, its first parameter is bound to the receiver?) or name of an external function or None"""
        fn = n.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.me and self.f.cls is not None:
            g = self.f.cls.find(fn.attr)
            if g is not None:
                return g, not g.is_static
            return None, False
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and \
                fn.value.func.id == 'super' and self.f.cls is not None:
            g = self.f.cls.find(fn.attr, after=self.f.cls)
            return (g, True) if g is not None else (None, False)
        r = self.e.prog.resolve_expr(self.f.mod, fn) if dotted(fn) else None
        if isinstance(r, FuncInfo):
            return r, r.is_classmethod
        if isinstance(r, ClassInfo):
            g = r.find('__init__')
            return (g, None) if g is not None else (None, False)
        if isinstance(r, tuple) and r and r[0] == 'ext':
            return r[1], False
        if isinstance(fn, ast.Name):
            return fn.id, False
        return None, False

    def call(self, n, env):
        args = [self.value(a, env) for a in n.args]
        kws = {k.arg: self.value(k.value, env) for k in n.keywords}
        g, bound = self.target(n)
        recv = self.value(n.func.value, env) if isinstance(n.func, ast.Attribute) else NONE
        for k in n.keywords:
            if k.arg == 'inplace' and isinstance(k.value, ast.Constant) and k.value.value is True:
                self.mutate(recv, n)
            if k.arg == 'out':
                self.mutate(kws['out'], n)
        if isinstance(g, FuncInfo):
            return self.apply(g, bound, recv, args, kws, n)
        shared = any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords)
        if isinstance(g, str) and not recv:
            if shared and args:
                if g in WORKS:
                    self.mutate(args[0], n, deep=True)
                return args[0]
            if g in INPLACE and args:
                self.mutate(args[0], n)
            if g in SAME and args:
                return frozenset().union(*args)
            if g == 'getattr' and args:
                return args[0]
            if g in COPY and len(args) == 1:
                return frozenset((p, a, 'c') for p, a, k in args[0])
            return NONE
        if isinstance(n.func, ast.Attribute):
            name = n.func.attr
            fs = self.e.methods.get(name)
            if fs and recv and name not in MUTATE:
                # a method of the package, decided by name
                muts = [{a for p, a in self.e.mut[f.qual] if f.params() and p == f.params()[0]} for f in fs]
                if muts and all(muts):
                    for m in muts:
                        for a in m:
                            self.mutate(frozenset((p, b or a, k) for p, b, k in recv), n)
                if any(f.params() and p == f.params()[0] and k == 'a' and not a for f in fs for p, a, k in self.e.ret[f.qual]):
                    return recv
                return NONE
            if name in MUTATE:
                self.mutate(recv, n)
            if shared and name in SHARES:
                return recv
            if name in VIEW:
                return recv
            if name in ('copy', '__copy__', '__deepcopy__'):
                return frozenset((p, a, 'c') for p, a, k in recv)
        return NONE

    def apply(self, g, bound, recv, args, kws, n):
        ps = g.params()
        actual = {}
        if bound is None:       # a constructor
            ps = ps[1:]
        elif bound and ps:
            if recv:
                actual[ps[0]] = recv
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call):
                actual[ps[0]] = frozenset([(self.me, '', 'a')]) if self.me else NONE
            ps = ps[1:]
        for p, v in zip(ps, args):
            actual[p] = v
        for k, v in kws.items():
            if k in ps or k in g.kwonly():
                actual[k] = v
        if g.qual not in self.e.mut:
            return NONE
        for p, a in list(self.e.mut[g.qual]):
            if p in actual:
                self.mutate(frozenset((q, b or a, k) for q, b, k in actual[p]), n)
        if bound is None:
            return NONE
        out = set()
        for p, a, k in self.e.ret[g.qual]:
            for q, b, j in actual.get(p, ()):
                out.add((q, b or a, 'c' if 'c' in (k, j) else 'a'))
        return frozenset(out)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
