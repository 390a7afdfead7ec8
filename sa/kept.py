"""State that survives a call: values of one call that can reach a later one.

K1  a parameter gets a new mutable default that the function changes or keeps
K2  a cache (new attribute or module-level name that is tested, stored and read in one function) whose key does not
    contain everything the stored value depends on, and that nothing else resets
K3  a container attribute the reviewed function replaced at every call is now only added to
K4  a memoising decorator on a function that reads state the key does not contain
K5  a container that was made per object is now made once for the class and changed in place
"""
import ast

MUTATORS = {'append', 'extend', 'add', 'update', 'setdefault', 'insert', 'pop', 'remove', 'clear', 'popitem', 'discard', 'appendleft',
            'sort', 'reverse', '__setitem__', 'increment'}
FRESH = {'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'Counter', 'deque', 'WeakKeyDictionary'}
MEMO = {'lru_cache', 'cache', 'cached_property', 'memoize', 'memoized'}
READS = {'open', 'listdir', 'walk', 'read_csv', 'load', 'glob', 'getmtime', 'isfile', 'exists', 'smart_open', 'unpickle'}


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        return n in FRESH
    return False


def defaults(fn):
    a = fn.args
    ps = a.posonlyargs + a.args
    out = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


def path(e):
    """'self.x' or 'name' of a plain location; None otherwise"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = path(e.value)
        if b is None and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'type':
            b = 'cls'
        if b is None and isinstance(e.value, ast.Attribute) and e.value.attr == '__class__':
            b = 'cls'
        return None if b is None else b + '.' + e.attr
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) > 1 \
            and isinstance(e.args[1], ast.Constant) and isinstance(e.args[0], ast.Name):
        return '%s.%s' % (e.args[0].id, e.args[1].value)
    return None


def last(p):
    return p.rsplit('.', 1)[-1]


def changes(fn, p):
    """is the object at p changed in place, returned or kept?"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and path(n.func.value) == p:
            return True
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                if isinstance(t, ast.Subscript) and path(t.value) == p:
                    return True
                if isinstance(n, ast.AugAssign) and path(t) == p:
                    return True
            if isinstance(n, ast.Assign) and path(n.value) == p and any(isinstance(t, ast.Attribute) for t in n.targets):
                return True
        if isinstance(n, ast.Return) and n.value is not None and path(n.value) == p:
            return True
    return False


def rebound_before(fn, p):
    """`if p is None: p = []`-like rebinding makes a fresh object"""
    return any(isinstance(n, ast.Assign) and any(path(t) == p for t in n.targets) for n in ast.walk(fn))


def words(prog):
    """every identifier and attribute name of a program, per module and class"""
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.add(n.value)
    return out


def stores(fn, p):
    """values stored at p (or at p[...]) in the function"""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            pairs = []
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    pairs += list(zip(t.elts, n.value.elts))
                else:
                    pairs.append((t, n.value))
            for t, v in pairs:
                if path(t) == p:
                    out.append((None, v))
                elif isinstance(t, ast.Subscript) and path(t.value) == p:
                    out.append((t.slice, v))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault' and path(n.func.value) == p \
                and len(n.args) == 2:
            out.append((n.args[0], n.args[1]))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 \
                and isinstance(n.args[1], ast.Constant) and isinstance(n.args[0], ast.Name) and '%s.%s' % (
                    n.args[0].id, n.args[1].value) == p:
            out.append((None, n.args[2]))
    return out


def loads(fn, p):
    return [n for n in ast.walk(fn) if path(n) == p and (
        isinstance(n, ast.Call) or isinstance(getattr(n, 'ctx', None), ast.Load))]


class Kept:
    def __init__(self, rc):
        self.rc = rc
        self.old = words(rc.ref)
        self.new_names = words(rc.cur) - self.old
        self.mut = self.mutable_attrs()

    def mutable_attrs(self):
        out = set()
        for f in self.rc.cur.funcs:
            init = f.name in ('__init__', '__new__', '__setstate__')
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                        and isinstance(n.func.value, ast.Attribute):
                    out.add(n.func.value.attr)
                if init:
                    continue
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute):
                    out.add(n.value.attr)
        return out

    def method_reads(self, f, seen=None):
        """attributes of the object read by a method and the methods it calls"""
        seen = set() if seen is None else seen
        if f is None or f.qual in seen or f.cls is None or not f.params():
            return set(), False
        seen.add(f.qual)
        me = f.params()[0]
        out, disk = set(), False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                g = None
                for c in [f.cls] + f.cls.mro() if hasattr(f.cls, 'mro') else [f.cls]:
                    g = next((x for x in self.rc.cur.funcs if x.cls is c and x.name == n.attr), None)
                    if g is not None:
                        break
                if g is not None:
                    o, d = self.method_reads(g, seen)
                    out |= o
                    disk |= d
                else:
                    out.add(n.attr)
            if isinstance(n, ast.Call) and last(path(n.func) or '') in READS:
                disk = True
        return out, disk

    def depends(self, f, e):
        """(parameters, attributes of self, reads files) an expression depends on"""
        fn = f.node
        ps = set(f.params()) | set(f.kwonly())
        for a in (fn.args.vararg, fn.args.kwarg):
            if a is not None:
                ps.add(a.arg)
        me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
        defs = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            defs.setdefault(x.id, []).append(n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        defs.setdefault(x.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        defs.setdefault(x.id, []).append(n.iter)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for x in ast.walk(n.optional_vars):
                    if isinstance(x, ast.Name):
                        defs.setdefault(x.id, []).append(n.context_expr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in MUTATORS:
                for x in list(n.args) + [k.value for k in n.keywords]:
                    defs.setdefault(n.func.value.id, []).append(x)
        params, attrs, disk, seen, todo = set(), set(), False, set(), [e]
        while todo:
            n = todo.pop()
            for x in ast.walk(n):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    g = next((y for y in self.rc.cur.funcs if y.cls is not None and f.cls.is_sub(y.cls) and y.name == x.attr), None)
                    if g is not None:
                        o, d = self.method_reads(g)
                        attrs |= o
                        disk |= d
                    else:
                        attrs.add(x.attr)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    if x.id in ps and x.id != me:
                        params.add(x.id)
                    if x.id in defs and x.id not in seen:
                        seen.add(x.id)
                        todo += defs[x.id]
                if isinstance(x, ast.Call) and last(path(x.func) or '') in READS:
                    disk = True
        return params, attrs, disk

    def of(self, q, fs):
        rf, cf = self.rc.rf[q], self.rc.cf[q]
        out = []
        # K1
        da, db = defaults(rf.node), defaults(cf.node)
        for p, d in db.items():
            if mutable(d) and not (p in da and mutable(da[p])) and not rebound_before(cf.node, p) and changes(cf.node, p):
                out.append((cf.node.lineno, 'K1', 'the default of %s is one object for all calls, and it is changed or kept' % p))
        # K4
        for n in cf.node.decorator_list:
            nm = last(path(n.func if isinstance(n, ast.Call) else n) or '')
            if nm in MEMO and not any(last(path(m.func if isinstance(m, ast.Call) else m) or '') in MEMO for m in rf.node.decorator_list):
                o, disk = self.method_reads(cf) if cf.cls is not None else (set(), any(
                    isinstance(x, ast.Call) and last(path(x.func) or '') in READS for x in ast.walk(cf.node)))
                if disk or o & self.mut:
                    out.append((cf.node.lineno, 'K4', 'results are memoised although they depend on %s' % (
                        'files' if disk else ', '.join(sorted(o & self.mut)))))
        for g in fs:
            out += self.cache(g)
        # K3
        if rf.name != '__init__' and rf.cls is not None and rf.params() and cf.params():
            me, mc = rf.params()[0], cf.params()[0]
            for n in ast.walk(rf.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and mutable(n.value):
                            p = mc + '.' + t.attr
                            if not any(self.resets(g, t.attr) for g in fs) and any(
                                    changes_only(g.node, (g.params() or [''])[0] + '.' + t.attr) for g in fs):
                                out.append((cf.node.lineno, 'K3', '%s is no longer emptied at every call' % p))
        return out

    def resets(self, g, attr):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'clear' and (path(n.func.value) or '').endswith('.' + attr):
                return True
        return False

    def cache(self, f):
        out = []
        fn = f.node
        tests = []
        for n in ast.walk(fn):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                tests.append(n.test)
            elif isinstance(n, ast.Try):
                tests += n.body
        locs = set()
        for n in ast.walk(fn):
            p = path(n)
            if p and last(p) in self.new_names and ('.' in p or self.is_global(f, p)):
                locs.add(p)
        for p in sorted(locs):
            ss = stores(fn, p)
            if not ss:
                continue
            guarded = any(path(x) == p or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr'
                          and len(x.args) == 2 and isinstance(x.args[1], ast.Constant) and x.args[1].value == last(p)
                          for t in tests for x in ast.walk(t))
            if not guarded or not loads(fn, p):
                continue
            if self.reset_elsewhere(f, last(p)):
                continue
            key = self.keynames(fn, p, locs)
            for idx, v in ss:
                if isinstance(v, ast.Constant) or mutable(v) and not list(ast.walk(v))[1:2]:
                    continue
                ps, at, disk = self.depends(f, v)
                kp = set(key)
                for e in list(key):
                    pass
                miss = {x for x in ps if x not in kp} | {'self.' + a for a in at & self.mut if a not in kp and a not in self.new_names}
                if p.split('.')[0] not in ('self', 'cls') and '.' not in p or p.startswith('cls.') or self.class_level(f, p):
                    # shared by all objects: every attribute counts
                    miss |= {'self.' + a for a in at if a not in kp and a not in self.new_names and self.is_data(f, a)}
                if disk:
                    miss.add('the contents of files')
                if miss:
                    out.append((getattr(v, 'lineno', fn.lineno), 'K2', '%s keeps a value that depends on %s, which its key does not contain' % (
                        p, ', '.join(sorted(miss)))))
                    break
        return out

    def is_data(self, f, a):
        return any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) for g in self.rc.cur.funcs if g.cls is not None
                   for n in ast.walk(g.node))

    def class_level(self, f, p):
        if f.cls is None or '.' not in p:
            return False
        head = p.split('.')[0]
        if any(c.name == head for m in self.rc.cur.modules.values() for c in m.classes.values()):
            return True
        return last(p) in f.cls.consts and not any(
            isinstance(n, ast.Attribute) and n.attr == last(p) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)
            and n.value.id == 'self' for g in self.rc.cur.funcs if g.cls is f.cls for n in ast.walk(g.node))

    def is_global(self, f, name):
        for s in f.mod.tree.body:
            for n in [s] if isinstance(s, (ast.Assign, ast.AnnAssign)) else []:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Name) and t.id == name for t in ts):
                    return True
        return False

    def reset_elsewhere(self, f, name):
        for g in self.rc.cur.funcs:
            if g.qual == f.qual or g.name == '__init__':
                continue
            for n in ast.walk(g.node):
                if isinstance(n, (ast.Attribute, ast.Name)) and last(path(n) or '') == name and not isinstance(n.ctx, ast.Load):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('clear', 'pop', 'cache_clear') \
                        and last(path(n.func.value) or '') == name:
                    return True
        return False

    def keynames(self, fn, p, locs):
        """names whose value (not only their length or identity) is part of the key"""
        es = []
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and path(n.value) == p:
                es.append(n.slice)
            elif isinstance(n, ast.Compare):
                sides = [n.left] + n.comparators
                if any(path(s) in locs for s in sides) or any(path(y) in locs for s in sides for y in ast.walk(s)):
                    es += [s for s in sides if path(s) not in locs]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'setdefault', 'pop') \
                    and path(n.func.value) == p and n.args:
                es.append(n.args[0])
        names, seen = set(), set()
        defs = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        defs.setdefault(t.id, []).append(n.value)
        while es:
            e = es.pop()
            todo = [e]
            while todo:
                x = todo.pop()
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'id', 'type', 'bool'):
                    continue
                if isinstance(x, ast.Name):
                    names.add(x.id)
                    if x.id in defs and x.id not in seen:
                        seen.add(x.id)
                        es += defs[x.id]
                elif isinstance(x, ast.Attribute):
                    names.add(x.attr)
                todo += list(ast.iter_child_nodes(x))
        return names


def changes_only(fn, p):
    """changed in place (not merely returned)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and (
                path(n.func.value) == p or isinstance(n.func.value, ast.Subscript) and path(n.func.value.value) == p):
            return True
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Subscript) and path(t.value) == p:
                    return True
    return False


def shared_containers(rc):
    """K5: [(class qual, name, line)]"""
    out = []
    refc = {c.qual: c for m in rc.ref.modules.values() for c in m.classes.values()}
    for m in rc.cur.modules.values():
        for c in m.classes.values():
            r = refc.get(c.qual)
            for n, e in c.consts.items():
                if not mutable(e) or r is not None and n in r.consts:
                    continue
                per_obj = False
                if r is not None:
                    for f in rc.ref.funcs:
                        if f.cls is r and f.name == '__init__' and f.params():
                            for x in ast.walk(f.node):
                                if isinstance(x, ast.Assign) and mutable(x.value) and any(path(t) == f.params()[0] + '.' + n for t in x.targets):
                                    per_obj = True
                if not per_obj:
                    continue
                fs = [f for f in rc.cur.funcs if f.cls is not None and (f.cls is c or f.cls.is_sub(c)) and f.params()]
                if any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Store) for f in fs if f.name == '__init__'
                       for x in ast.walk(f.node)):
                    continue
                if any(changes_only(f.node, f.params()[0] + '.' + n) for f in fs):
                    out.append((c.qual, n, getattr(e, 'lineno', 1)))
    return out
