"""Normal form of a function: abstract evaluation into gated value terms and an
effect tree, with repository helpers inlined.

Abstract values ("terms") are nested tuples; an `if` joins into gated terms
(ite), loops are evaluated once over a generic element (no unrolling of unknown
iterables, no path enumeration, no solver), comprehensions and append-loops
produce the same `m` parts, and repository calls are inlined.  The result is a
summary that does not depend on local names, on statement order that carries no
dependency, on if/else orientation, on for/while/comprehension spelling, or on
whether code sits in a helper.
"""
import ast

from .model import Program, ClassInfo, FuncInfo, Module, dotted, AnalysisBroken

NONE = ('const', None)
TRUE = ('const', True)
FALSE = ('const', False)


def C(v):
    return ('const', v)


def S(name):
    return ('sym', name)


def plain_sorted(v, lambdas):
    """sorted(d.items(), key=first) is sorted(d.items()), sorted(d.keys()) is sorted(d)"""
    if len(v[2]) != 1:
        return v
    x, kws = v[2][0], v[3]
    if x[0] == 'mcall' and x[2] == 'items' and not x[3]:
        kws = tuple((k, w) for k, w in kws if not (k == 'key' and takes_first(w, lambdas)))
    elif x[0] == 'mcall' and x[2] == 'keys' and not x[3] or x[0] == 'call' and x[1] in ('list', 'tuple') and len(x[2]) == 1 and not x[3]:
        return plain_sorted(('call', 'sorted', (x[1] if x[0] == 'mcall' else x[2][0],), kws), lambdas)
    return ('call', 'sorted', (x,), kws)


def key_is(k, p):
    if k[0] == 'ite':
        return mk_ite(k[1], key_is(k[2], p), key_is(k[3], p))
    return mk_cmp('==', k, C(p)) if not is_const(k) else (TRUE if k == C(p) else FALSE)


def takes_first(w, lambdas):
    if w[:3] == ('call', 'operator.itemgetter', (C(0),)):
        return True
    if w[0] != 'lambda' or w[1] not in lambdas:
        return False
    e = lambdas[w[1]][0]
    if not isinstance(e, ast.Lambda) or len(e.args.args) != 1:
        return False
    b = e.body
    return isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) and b.value.id == e.args.args[0].arg \
        and isinstance(b.slice, ast.Constant) and b.slice.value == 0


class N:
    """effect-tree node"""
    __slots__ = ('k', 'a', 'loc', 'fn', 'facts')

    def __init__(self, k, loc=None, fn=None, **a):
        self.k = k
        self.a = a
        self.loc = loc
        self.fn = fn

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '<%s %s>' % (self.k, self.loc)


# ---------------------------------------------------------------- terms
def subterms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(v, sub):
    if v == sub:
        return True
    if isinstance(v, tuple):
        return any(contains(x, sub) for x in v if isinstance(x, tuple))
    return False


def contains_any(v, pred):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and pred(v):
            return True
        return any(contains_any(x, pred) for x in v if isinstance(x, tuple))
    return False


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in v)
    return v


def is_const(v):
    return isinstance(v, tuple) and v and v[0] == 'const'


FRESH_EXT = {'multiprocessing.Queue', 'multiprocessing.Process', 'multiprocessing.JoinableQueue', 'multiprocessing.SimpleQueue',
             'multiprocessing.Manager', 'multiprocessing.Pool', 'multiprocessing.pool.Pool', 'queue.Queue'}
BOOL_OPS = ('and', 'or', 'not', 'cmp', 'isnone', 'truthy', 'isinstance', 'exc', 'in', 'is')


def is_bool(v):
    return v[0] in BOOL_OPS or (v[0] == 'const' and isinstance(v[1], bool))


def mk_not(f):
    if f[0] == 'const':
        return C(not f[1])
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def mk_and(*fs):
    out = []
    for f in fs:
        if f[0] == 'and':
            out.extend(f[1:])
        elif f == TRUE:
            continue
        elif f == FALSE:
            return FALSE
        else:
            out.append(f)
    res = []
    for f in out:
        if f in res:
            continue
        if mk_not(f) in res:
            return FALSE
        res.append(f)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return ('and',) + tuple(res)


def mk_or(*fs):
    out = []
    for f in fs:
        if f[0] == 'or':
            out.extend(f[1:])
        elif f == FALSE:
            continue
        elif f == TRUE:
            return TRUE
        else:
            out.append(f)
    res = []
    for f in out:
        if f in res:
            continue
        if mk_not(f) in res:
            return TRUE
        res.append(f)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    # (a and x) or (not a) -> keep; simple absorption
    absorbed = []
    for f in res:
        if f[0] == 'and' and any(g in res for g in f[1:]):
            continue
        absorbed.append(f)
    if len(absorbed) == 1:
        return absorbed[0]
    return ('or',) + tuple(absorbed)


def mk_ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if c[0] == 'not':
        return mk_ite(c[1], b, a)
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return mk_not(c)
    # ite(c, ite(c,x,y), z)
    if a[0] == 'ite' and a[1] == c:
        a = a[2]
    if b[0] == 'ite' and b[1] == c:
        b = b[3]
    if a == b:
        return a
    if c[0] == 'cmp' and c[1] == '<' and not is_const(a) and not is_const(b) and a[0] not in ('ite', 'tuple') and b[0] not in ('ite', 'tuple'):
        # the larger or the smaller of two
        if c[2:] == (a, b):
            return ('call', 'min', (b, a) if repr(a) > repr(b) else (a, b), ())
        if c[2:] == (b, a):
            return ('call', 'max', (b, a) if repr(a) > repr(b) else (a, b), ())
    if is_bool(c):
        if a == FALSE and is_bool(b):
            return mk_and(mk_not(c), b)
        if b == FALSE and is_bool(a):
            return mk_and(c, a)
        if a == TRUE and is_bool(b):
            return mk_or(c, b)
        if b == TRUE and is_bool(a):
            return mk_or(mk_not(c), a)
    return ('ite', c, a, b)


CMP_NEG = {'>=': '<', '<=': '>', '!=': '=='}


def mk_cmp(op, a, b):
    """canonical comparison formula"""
    if is_const(a) and is_const(b):
        try:
            r = {'==': lambda: a[1] == b[1], '!=': lambda: a[1] != b[1], '<': lambda: a[1] < b[1],
                 '>': lambda: a[1] > b[1], '<=': lambda: a[1] <= b[1], '>=': lambda: a[1] >= b[1]}[op]()
            return C(bool(r))
        except Exception:
            pass
    if op in ('==', '!='):
        if a == b and a[0] not in ('unk',):
            f = TRUE
        elif b == NONE:
            f = ('isnone', a)
        elif a == NONE:
            f = ('isnone', b)
        else:
            # len(x) == 0
            for x, y in ((a, b), (b, a)):
                if x[0] == 'len' and y == C(0):
                    return ('not', ('truthy', x[1])) if op == '==' else ('truthy', x[1])
            if repr(a) > repr(b):
                a, b = b, a
            f = ('cmp', '==', a, b)
        return f if op == '==' else mk_not(f)
    if op == '>':
        return mk_cmp('<', b, a)
    if op == '>=':
        return mk_not(mk_cmp('<', a, b))
    if op == '<=':
        return mk_not(mk_cmp('<', b, a))
    # a < b
    if a == C(0) and b[0] == 'len':
        return ('truthy', b[1])
    if a[0] == 'len' and b == C(1):
        return ('not', ('truthy', a[1]))
    return ('cmp', '<', a, b)


def lin(v):
    """linear form {term: coeff} with key None for the constant; None if not linear"""
    if v[0] == 'const' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
        return {None: v[1]} if v[1] else {}
    if v[0] == 'bin' and v[1] in '+-':
        a, b = lin(v[2]), lin(v[3])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, c in b.items():
            r[k] = r.get(k, 0) + (c if v[1] == '+' else -c)
        return {k: c for k, c in r.items() if c}
    if v[0] == 'bin' and v[1] == '*':
        a, b = lin(v[2]), lin(v[3])
        for x, y in ((a, b), (b, a)):
            if x is not None and set(x) <= {None}:
                c = x.get(None, 0)
                return {k: c * w for k, w in (y or {}).items() if c * w} if y is not None else None
        return {v: 1}
    if v[0] == 'neg':
        a = lin(v[1])
        return None if a is None else {k: -c for k, c in a.items()}
    return {v: 1}


def mk_lin(d):
    items = sorted(((repr(k), k, c) for k, c in d.items() if k is not None))
    res = None
    for _, k, c in items:
        t = k if c == 1 else ('bin', '*', C(c), k)
        if c == -1:
            t = ('neg', k)
        if res is None:
            res = t
        else:
            res = ('bin', '+', res, t)
    k0 = d.get(None, 0)
    if res is None:
        return C(k0)
    if k0:
        res = ('bin', '+', res, C(k0))
    return res


def lin_diff(a, b):
    """constant difference a-b if both linear with same symbolic part, else None"""
    x, y = lin(a), lin(b)
    if x is None or y is None:
        return None
    r = dict(x)
    for k, c in y.items():
        r[k] = r.get(k, 0) - c
    r = {k: c for k, c in r.items() if c}
    if set(r) <= {None}:
        return r.get(None, 0)
    return None


def sized(v):
    """a value with as many elements (or at least empty when this one is)"""
    def shape(parts):
        return tuple(('i', NONE) if p[0] == 'i' else ('m', p[1], p[2], shape(p[3])) + p[4:] if p[0] == 'm'
                     else ('ifp', p[1], shape(p[2]), shape(p[3])) if p[0] == 'ifp' else p for p in parts)

    while True:
        if v[0] == 'call' and v[1] in ('list', 'tuple', 'sorted', 'numpy.array', 'copy.deepcopy', 'copy.copy') and len(v[2]) == 1 and not v[3][:1] \
                or v[0] == 'call' and v[1] == 'sorted' and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == 'list' and len(v) == 2 and len(v[1]) == 1 and v[1][0][0] == 'm' and len(v[1][0][3]) == 1 \
                and v[1][0][3][0][0] == 'i' and v[1][0][2][0] in ('sym', 'attr', 'list', 'call', 'rcall', 'mcall', 'idx', 'obj'):
            v = v[1][0][2]
        elif v[0] == 'list' and len(v) == 2 and isinstance(v[1], tuple) and all(p[0] in ('m', 'ifp', 'i', 's') for p in v[1]):
            return ('list', shape(v[1]))
        else:
            return v


def truth(v):
    """formula for the truthiness of a value"""
    if v[0] in ('call', 'list'):
        w = sized(v)
        while w[0] == 'call' and w[1] in ('set', 'frozenset') and len(w[2]) == 1:
            w = sized(w[2][0])
        if w != v:
            return truth(w) if w[0] in ('call', 'list') else ('truthy', w)
    if v[0] == 'const':
        return C(bool(v[1]))
    if v[0] in BOOL_OPS:
        return v
    if v[0] == 'ite':
        return mk_or(mk_and(v[1], truth(v[2])), mk_and(mk_not(v[1]), truth(v[3])))
    if v[0] == 'len':
        return ('truthy', v[1])
    if v[0] in ('tuple',):
        return C(len(v) > 1)
    if v[0] in ('func', 'class', 'module', 'lambda', 'bound', 'ext'):
        return TRUE
    if v[0] == 'call' and v[1] == 'bool' and len(v[2]) == 1:
        return truth(v[2][0])
    return ('truthy', v)


def canon(v, table=None):
    """rename loop ids / object ids in order of first appearance"""
    if table is None:
        table = {}

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'LID':
                if x not in table:
                    table[x] = ('LID', len(table))
                return table[x]
            if x and x[0] == 'obj':
                if x not in table:
                    table[x] = ('obj', 'o%d' % len(table))
                return table[x]
            return tuple(go(y) for y in x)
        return x
    return go(v)


def show(v, depth=0):
    """readable rendering of a term"""
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if depth > 9:
        return '…'
    h = v[0]
    s = lambda x: show(x, depth + 1)
    try:
        if h == 'const':
            return repr(v[1])
        if h == 'sym':
            return v[1]
        if h == 'attr':
            return '%s.%s' % (s(v[1]), v[2])
        if h == 'idx':
            return '%s[%s]' % (s(v[1]), s(v[2]))
        if h == 'slice':
            return ':'.join('' if x == NONE else s(x) for x in v[1:])
        if h == 'bin':
            return '(%s %s %s)' % (s(v[2]), v[1], s(v[3]))
        if h == 'neg':
            return '-%s' % s(v[1])
        if h == 'cmp':
            return '%s %s %s' % (s(v[2]), v[1], s(v[3]))
        if h == 'isnone':
            return '%s is None' % s(v[1])
        if h == 'truthy':
            return 'bool(%s)' % s(v[1])
        if h == 'not':
            return 'not (%s)' % s(v[1])
        if h in ('and', 'or'):
            return '(' + (' %s ' % h).join(s(x) for x in v[1:]) + ')'
        if h == 'ite':
            return '(%s if %s else %s)' % (s(v[2]), s(v[1]), s(v[3]))
        if h == 'in':
            return '%s in %s' % (s(v[1]), s(v[2]))
        if h == 'call':
            return '%s(%s)' % (v[1] if isinstance(v[1], str) else s(v[1]),
                               ', '.join([s(x) for x in v[2]] + ['%s=%s' % (k, s(x)) for k, x in v[3]]))
        if h == 'mcall':
            return '%s.%s(%s)' % (s(v[1]), v[2], ', '.join([s(x) for x in v[3]] + ['%s=%s' % (k, s(x)) for k, x in v[4]]))
        if h in ('rcall', 'new'):
            return '%s(%s)' % (v[1].split('.')[-1], ', '.join('%s=%s' % (k, s(x)) for k, x in v[2]))
        if h == 'elem':
            return 'each(%s)' % s(v[1])
        if h == 'pos':
            return 'pos(%s)' % s(v[1])
        if h == 'len':
            return 'len(%s)' % s(v[1])
        if h in ('tuple',):
            return '(%s)' % ', '.join(s(x) for x in v[1:])
        if h in ('list', 'set', 'dict'):
            return '%s{%s}' % (h, ', '.join(s(x) for x in v[1]))
        if h == 'i':
            return s(v[1])
        if h == 's':
            return '*' + s(v[1])
        if h == 'kv':
            return '%s: %s' % (s(v[1]), s(v[2]))
        if h == 'm':
            return 'for %s: [%s]' % (s(v[2]), ', '.join(s(x) for x in v[3]))
        if h == 'ifp':
            return 'if %s: [%s] else [%s]' % (s(v[1]), ', '.join(s(x) for x in v[2]), ', '.join(s(x) for x in v[3]))
        if h == 'lv':
            return '%s@loop' % (v[2],)
        if h == 'lout':
            return '%s@after-loop' % (v[2],)
        if h == 'func':
            return v[1]
    except Exception:
        pass
    return '%s(%s)' % (h, ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in v[1:]))


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'heap', 'cont', 'facts')

    def __init__(self, env=None, heap=None, cont=None, facts=None):
        self.env = env or {}
        self.heap = heap or {}
        self.cont = cont or {}
        self.facts = facts or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.cont), dict(self.facts))


class Frame:
    def __init__(self, fi, mod, cls, closure=None, depth=0):
        self.fi = fi
        self.mod = mod
        self.cls = cls
        self.closure = closure  # dict of captured env (by value snapshot)
        self.depth = depth
        self.globals = set()


PURE_BUILTINS = {'len', 'int', 'float', 'str', 'abs', 'min', 'max', 'sum', 'round', 'sorted', 'list', 'tuple', 'set',
                 'frozenset', 'dict', 'range', 'enumerate', 'zip', 'map', 'filter', 'isinstance', 'any', 'all', 'type',
                 'repr', 'bool', 'hash', 'id', 'iter', 'reversed', 'getattr', 'hasattr', 'callable', 'ord', 'chr',
                 'issubclass', 'complex', 'divmod', 'pow', 'slice'}
PROGRESS = {'tqdm.tqdm', 'tqdm.tqdm_notebook', 'tqdm.auto.tqdm', 'tqdm.notebook.tqdm'}
TRANGE = {'tqdm.trange', 'tqdm.tnrange'}
EXT_ITER_ALIAS = {'six.iteritems': 'items', 'six.iterkeys': 'keys', 'six.itervalues': 'values'}


class Interp:
    MAXDEPTH = 14

    def __init__(self, prog, opaque=None, inline_classes=(), types=None, unroll=8, no_inline=None, const_globals=True):
        self.prog = prog
        self.opaque = opaque or (lambda fi: False)
        self.inline_classes = set(inline_classes)    # class quals instantiated as tracked objects
        self.types = dict(types or {})   # V -> ClassInfo
        self.unroll = unroll
        self.counter = 0
        self.lambdas = {}
        self.stack = []
        self.visited_funcs = set()
        self.obj_class = {}
        self.obj_kind = {}
        self.loops = {}
        self.iter_of_loop = {}
        self.modconsts = 0

    # -- helpers
    def fresh(self):
        self.counter += 1
        return self.counter

    def loc(self, node, fr):
        return '%s:%d' % (fr.mod._rel, getattr(node, 'lineno', 0))

    def vclass(self, v):
        if v in self.types:
            return self.types[v]
        if v[0] == 'obj':
            return self.obj_class.get(v)
        if v[0] == 'new':
            try:
                return self.prog.cls(v[1])
            except AnalysisBroken:
                return None
        if v[0] == 'attr':
            b = self.vclass(v[1])
            if b is not None:
                return self.prog.attr_types(b).get(v[2])
        if v[0] == 'ite':
            a, b = self.vclass(v[2]), self.vclass(v[3])
            if a is b:
                return a
            if v[2] == NONE:
                return b
            if v[3] == NONE:
                return a
        return None

    # -- entry
    def run(self, fi, args=None, self_val=None, self_cls=None, state=None):
        """Evaluate function fi on symbolic parameters.  args: name -> V."""
        st = state.copy() if state else State()
        args = dict(args or {})
        env = {}
        params = fi.params()
        if fi.cls is not None and not fi.is_static and params:
            if self_val is None:
                if fi.is_classmethod:
                    self_val = ('class', (self_cls or fi.cls).qual)
                else:
                    self_val = S(params[0])
            if not fi.is_classmethod:
                self.types.setdefault(self_val, self_cls or fi.cls)
            env[params[0]] = self_val
            params = params[1:]
        for p in params + fi.kwonly():
            env[p] = args.get(p, S(p))
        a = fi.node.args
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, S('*' + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, S('**' + a.kwarg.arg))
        st.env = env
        fr = Frame(fi, fi.mod, fi.cls)
        eff = []
        self.stack.append(fi.qual)
        self.visited_funcs.add(fi.qual)
        fl = self.block(fi.node.body, st, eff, fr)
        self.stack.pop()
        res = Result()
        res.effects = eff
        res.interp = self
        res.fi = fi
        ret = fl.get('ret')
        nxt = fl.get('next')
        if ret and nxt:
            res.ret = mk_ite(ret[0], ret[2], NONE)
            res.state = self.join(ret[0], ret[1], nxt[1])
        elif ret:
            res.ret, res.state = ret[2], ret[1]
        elif nxt:
            res.ret, res.state = NONE, nxt[1]
        else:
            res.ret, res.state = ('noreturn',), State()
        return res

    # -- flows: kind -> (guard, state, value)
    def merge_flow(self, c, f1, f2):
        out = {}
        for k in set(f1) | set(f2):
            if k in f1 and k in f2:
                g1, s1, v1 = f1[k]
                g2, s2, v2 = f2[k]
                # where the merged state is reached, the branch condition alone tells which branch it came from
                out[k] = (mk_or(mk_and(c, g1), mk_and(mk_not(c), g2)), self.join(c, s1, s2), mk_ite(c, v1, v2))
            elif k in f1:
                g, s, v = f1[k]
                out[k] = (mk_and(c, g), s, v)
            else:
                g, s, v = f2[k]
                out[k] = (mk_and(mk_not(c), g), s, v)
        return out

    def seq_flow(self, acc, f):
        """acc: earlier non-next kinds; f: later flow"""
        for k, (g, s, v) in f.items():
            if k in acc and k != 'next':
                g0, s0, v0 = acc[k]
                acc[k] = (mk_or(g0, g), self.join(g0, s0, s), mk_ite(g0, v0, v))
            else:
                acc[k] = (g, s, v)
        return acc

    def join(self, c, s1, s2):
        if s1 is s2:
            return s1
        r = State()
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is None:
                a = ('unbound', k)
            if b is None:
                b = ('unbound', k)
            r.env[k] = mk_ite(c, a, b)
        for k in set(s1.heap) | set(s2.heap):
            a = s1.heap.get(k, ('attr',) + k)
            b = s2.heap.get(k, ('attr',) + k)
            r.heap[k] = mk_ite(c, a, b)
        for k in set(s1.cont) | set(s2.cont):
            a, b = s1.cont.get(k), s2.cont.get(k)
            if a is None or b is None:
                r.cont[k] = a or b
            else:
                r.cont[k] = self.join_cont(c, a, b)
        r.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) == v}
        return r

    def join_cont(self, c, a, b):
        if a == b:
            return a
        if a[0] == b[0] and a[0] in ('list', 'dict', 'set') and len(a) == 2 and len(b) == 2:
            pa, pb = a[1], b[1]
            n = 0
            while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
                n += 1
            ra, rb = pa[n:], pb[n:]
            if c[0] == 'not':
                c, ra, rb = c[1], rb, ra
            return (a[0], pa[:n] + (('ifp', c, ra, rb),))
        return ('unkc',)

    # -- statements
    def block(self, stmts, st, eff, fr):
        acc = {}
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if isinstance(s, ast.If):
                c = self.cond(s.test, st, eff, fr)
                c = self.simp(c, st)
                if c == TRUE or c == FALSE:
                    f = self.block(s.body if c == TRUE else s.orelse, st, eff, fr)
                else:
                    te, ee = [], []
                    st1, st2 = st.copy(), st.copy()
                    self.assume(st1, c)
                    self.assume(st2, mk_not(c))
                    f1 = self.block(s.body, st1, te, fr)
                    f2 = self.block(s.orelse, st2, ee, fr)
                    rest = stmts[i + 1:]
                    eff.append(N('if', self.loc(s, fr), fr.fi, cond=c, then=te, els=ee))
                    if ('next' in f1) != ('next' in f2):
                        if 'next' in f1:
                            nx = f1.pop('next')
                            f1 = self.seq_flow(f1, self.block(rest, nx[1], te, fr))
                        else:
                            nx = f2.pop('next')
                            f2 = self.seq_flow(f2, self.block(rest, nx[1], ee, fr))
                        f = self.merge_flow(c, f1, f2)
                        return self.seq_flow(acc, f)
                    f = self.merge_flow(c, f1, f2)
            else:
                f = self.stmt(s, st, eff, fr)
            nx = f.pop('next', None)
            left = [g for k, (g, s_, v) in f.items() if k != 'raise']
            acc = self.seq_flow(acc, f)
            if nx is None:
                return acc
            st = nx[1]
            i += 1
            if left:
                # part of the paths have left: the rest runs only on the others
                g = mk_not(mk_or(*left))
                if g == TRUE:
                    continue
                if i == len(stmts):
                    acc['next'] = (g, st, NONE)
                    return acc
                te = []
                eff.append(N('if', self.loc(s, fr), fr.fi, cond=g, then=te, els=[]))
                st = st.copy()
                self.assume(st, g)
                f2 = self.block(stmts[i:], st, te, fr)
                return self.seq_flow(acc, {k: (mk_and(g, g2), s2, v2) for k, (g2, s2, v2) in f2.items()})
        acc['next'] = (TRUE, st, NONE)
        return acc

    def nxt(self, st):
        return {'next': (TRUE, st, NONE)}

    def stmt(self, s, st, eff, fr):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return self.nxt(st)
            self.ev(s.value, st, eff, fr)
            return self.nxt(st)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st, eff, fr)
            for t in s.targets:
                self.assign(t, v, st, eff, fr)
            return self.nxt(st)
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st, eff, fr), st, eff, fr)
            return self.nxt(st)
        if isinstance(s, ast.AugAssign):
            self.augassign(s, st, eff, fr)
            return self.nxt(st)
        if isinstance(s, ast.Return):
            v = self.ev(s.value, st, eff, fr) if s.value is not None else NONE
            eff.append(N('ret', self.loc(s, fr), fr.fi, val=v))
            return {'ret': (TRUE, st, v)}
        if isinstance(s, ast.Raise):
            v = self.ev(s.exc, st, eff, fr) if s.exc is not None else ('reraise',)
            eff.append(N('raise', self.loc(s, fr), fr.fi, val=v))
            return {'raise': (TRUE, st, v)}
        if isinstance(s, ast.Break):
            eff.append(N('break', self.loc(s, fr), fr.fi))
            return {'break': (TRUE, st, NONE)}
        if isinstance(s, ast.Continue):
            eff.append(N('continue', self.loc(s, fr), fr.fi))
            return {'cont': (TRUE, st, NONE)}
        if isinstance(s, ast.Pass):
            return self.nxt(st)
        if isinstance(s, ast.For):
            return self.forloop(s, st, eff, fr)
        if isinstance(s, ast.While):
            return self.whileloop(s, st, eff, fr)
        if isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, st, eff, fr)
                eff.append(N('with', self.loc(s, fr), fr.fi, val=v))
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st, eff, fr)
            return self.block(s.body, st, eff, fr)
        if isinstance(s, ast.Try):
            return self.trystmt(s, st, eff, fr)
        if isinstance(s, ast.Assert):
            c = self.cond(s.test, st, eff, fr)
            eff.append(N('assert', self.loc(s, fr), fr.fi, cond=c))
            self.assume(st, c)
            return self.nxt(st)
        if isinstance(s, (ast.FunctionDef,)):
            fi = FuncInfo(fr.mod, s, None, outer=fr.fi)
            lid = self.fresh()
            self.lambdas[lid] = (fi, st, fr)
            st.env[s.name] = ('lambda', lid)
            return self.nxt(st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env[t.id] = ('deleted',)
                elif isinstance(t, ast.Subscript):
                    b = self.ev(t.value, st, eff, fr)
                    i = self.ev(t.slice, st, eff, fr)
                    eff.append(N('del', self.loc(s, fr), fr.fi, target=('idx', b, i)))
                    self.havoc_cont(b, st)
                elif isinstance(t, ast.Attribute):
                    b = self.ev(t.value, st, eff, fr)
                    eff.append(N('del', self.loc(s, fr), fr.fi, target=('attr', b, t.attr)))
            return self.nxt(st)
        if isinstance(s, ast.Global):
            fr.globals |= set(s.names)
            return self.nxt(st)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    r = self.prog.lookup(s.module, a.name) if s.module in self.prog.modules else ('ext', '%s.%s' % (s.module, a.name))
                    st.env[a.asname or a.name] = self.resolved(r)
            else:
                for a in s.names:
                    nm = a.asname or a.name.split('.')[0]
                    tgt = a.name if a.asname else a.name.split('.')[0]
                    st.env[nm] = ('module', tgt) if tgt in self.prog.modules else ('ext', tgt)
            return self.nxt(st)
        if isinstance(s, ast.ClassDef):
            st.env[s.name] = ('unk', 'class', self.fresh())
            return self.nxt(st)
        # anything else: opaque
        eff.append(N('unknown', self.loc(s, fr), fr.fi, what=type(s).__name__))
        return self.nxt(st)

    def trystmt(self, s, st, eff, fr):
        tid = self.fresh()
        pre = st.copy()
        be = []
        f = self.block(s.body, st, be, fr)
        handlers = []
        mid = f['next'][1] if 'next' in f else (next(iter(f.values()))[1] if f else pre)
        out = f
        if 'next' in f and s.orelse:
            nx = f.pop('next')
            f = self.seq_flow(f, self.block(s.orelse, nx[1], be, fr))
            out = f
        for k, h in enumerate(s.handlers):
            he = []
            hs = self.join(('exc', tid, 'at'), pre.copy(), mid.copy())
            hs = hs.copy()
            if h.name:
                hs.env[h.name] = ('excval', tid, k)
            fh = self.block(h.body, hs, he, fr)
            names = []
            if h.type is None:
                names = ['*']
            elif isinstance(h.type, ast.Tuple):
                names = [dotted(x) or '?' for x in h.type.elts]
            else:
                names = [dotted(h.type) or '?']
            handlers.append((names, he, self.loc(h, fr)))
            out = self.merge_flow(('exc', tid, k), fh, out)
        fe = []
        node = N('try', self.loc(s, fr), fr.fi, body=be, handlers=handlers, final=fe, id=tid)
        eff.append(node)
        if s.finalbody:
            if 'next' in out:
                nx = out.pop('next')
                out = self.seq_flow(out, self.block(s.finalbody, nx[1], fe, fr))
            else:
                self.block(s.finalbody, mid.copy(), fe, fr)
        return out

    # -- assumptions
    def assume(self, st, c):
        if c[0] == 'and':
            for x in c[1:]:
                self.assume(st, x)
        elif c[0] == 'not' and c[1][0] == 'or':
            for x in c[1][1:]:
                self.assume(st, mk_not(x))
        elif c[0] == 'not':
            st.facts[c[1]] = False
            if c[1][0] == 'isnone':
                pass
        elif c[0] != 'const':
            st.facts[c] = True

    def simp(self, c, st):
        if c in st.facts:
            return C(st.facts[c])
        if c[0] == 'not':
            return mk_not(self.simp(c[1], st))
        if c[0] == 'and':
            return mk_and(*[self.simp(x, st) for x in c[1:]])
        if c[0] == 'or':
            return mk_or(*[self.simp(x, st) for x in c[1:]])
        if c[0] == 'truthy' and st.facts.get(('isnone', c[1])) is True:
            return FALSE
        if c[0] == 'isnone' and st.facts.get(('truthy', c[1])) is True:
            return FALSE
        return c

    def kill_facts(self, st, vals):
        roots = set()
        for v in vals:
            if v[0] in ('const', 'module', 'class', 'func', 'ext'):
                continue
            roots.add(v)
        if not roots or not st.facts:
            return
        st.facts = {k: b for k, b in st.facts.items() if not any(contains(k, r) for r in roots)}

    # -- assignment
    def assign(self, t, v, st, eff, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, ('unk', 'star', self.fresh()), st, eff, fr)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.index(v, C(i), st, n), st, eff, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, eff, fr)
            self.setattr(b, t.attr, v, st, eff, fr, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, eff, fr)
            i = self.ev(t.slice, st, eff, fr)
            eff.append(N('store', self.loc(t, fr), fr.fi, target=('idx', b, i), val=v))
            self.set_item(b, i, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, eff, fr)

    def setattr(self, b, name, v, st, eff, fr, node):
        cls = self.vclass(b)
        if cls is not None:
            m = cls.find(name + '=setter')
            if m is not None:
                self.call_func(m, [v], {}, st, eff, fr, node, self_val=b)
                return
        eff.append(N('store', self.loc(node, fr), fr.fi, target=('attr', b, name), val=v))
        st.heap[(b, name)] = v
        self.kill_facts(st, [('attr', b, name)])

    def set_item(self, b, i, v, st):
        c = st.cont.get(b) if b[0] == 'obj' else None
        if c is not None and c[0] == 'dict':
            st.cont[b] = ('dict', c[1] + (('kv', i, v),))
        elif c is not None:
            if c[0] == 'list' and is_const(i) and all(p[0] == 'i' for p in c[1]) and isinstance(i[1], int) and i[1] < len(c[1]):
                ps = list(c[1])
                ps[i[1]] = ('i', v)
                st.cont[b] = ('list', tuple(ps))
            else:
                st.cont[b] = ('unkc',)
        else:
            r = self.root_obj(b, st)
            if r is not None:
                st.cont[r] = ('unkc',)
            self.kill_facts(st, [b])

    def havoc_reach(self, x, st):
        """a container handed to unknown code may come back changed"""
        for t in subterms(x):
            if t and t[0] == "obj" and len(t) == 2 and t in st.cont:
                st.cont[t] = ('unkc',)

    def root_obj(self, b, st):
        while isinstance(b, tuple) and b[0] in ('idx', 'attr'):
            b = b[1]
        return b if isinstance(b, tuple) and b[0] == 'obj' and b in st.cont else None

    def listattrs(self, m):
        if not hasattr(m, '_listattrs'):
            m._listattrs = list_attributes(m.tree)
        return m._listattrs

    def havoc_cont(self, b, st):
        if b[0] == 'obj' and b in st.cont:
            st.cont[b] = ('unkc',)

    def augassign(self, s, st, eff, fr):
        op = BINOPS.get(type(s.op), '?')
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load(), lineno=s.lineno, col_offset=0), st, eff, fr)
            v = self.ev(s.value, st, eff, fr)
            if cur[0] == 'obj' and cur in st.cont:
                c = st.cont[cur]
                if op == '+' and c[0] == 'list':
                    st.cont[cur] = ('list', c[1] + self.splat_parts(v, st))
                elif op == '|' and c[0] == 'set':
                    self.call_method(cur, 'update', [v], {}, st, eff, fr, s)
                    return
                else:
                    st.cont[cur] = ('unkc',)
                eff.append(N('aug', self.loc(s, fr), fr.fi, op=op, target=cur, val=v, name=t.id))
                return
            if op == '+' and (self.listy(v, st) or cur[0] == 'attr' and cur[2] in self.listattrs(fr.fi.mod)):
                # extends the list in place
                self.call_method(cur, 'extend', [v], {}, st, eff, fr, s)
                return
            eff.append(N('aug', self.loc(s, fr), fr.fi, op=op, target=cur, val=v, name=t.id))
            st.env[t.id] = self.binop(op, cur, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, eff, fr)
            cur = self.getattr(b, t.attr, st, eff, fr, t)
            v = self.ev(s.value, st, eff, fr)
            eff.append(N('aug', self.loc(s, fr), fr.fi, op=op, target=('attr', b, t.attr), val=v, cur=cur))
            st.heap[(b, t.attr)] = self.binop(op, cur, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, eff, fr)
            i = self.ev(t.slice, st, eff, fr)
            v = self.ev(s.value, st, eff, fr)
            eff.append(N('aug', self.loc(s, fr), fr.fi, op=op, target=('idx', b, i), val=v))
            if b[0] == 'obj' and b in st.cont:
                c = st.cont[b]
                if c[0] == 'dict':
                    st.cont[b] = ('dict', c[1] + (('kvaug', op, i, v),))
                else:
                    st.cont[b] = ('unkc',)
            else:
                r = self.root_obj(b, st)
                if r is not None:
                    st.cont[r] = ('unkc',)

    def listy(self, v, st):
        return v[0] == 'obj' and v in st.cont and st.cont[v][0] == 'list' or v[0] == 'list' and len(v) == 2

    # -- loops
    def split_iter(self, it, st):
        """-> list of alternatives executed in order: ('lit', [values]) or ('it', iterV)"""
        it = self.strip_iter(it, st)
        if it[0] == 'obj' and it in st.cont:
            c = st.cont[it]
            if c[0] in ('list', 'set', 'dict'):
                return self.split_parts(c, st, it)
            return [('it', it)]
        if it[0] in ('list', 'set', 'dict') and len(it) == 2 and isinstance(it[1], tuple):
            return self.split_parts(it, st, it)
        if it[0] == 'tuple':
            return [('lit', list(it[1:]))]
        if it[0] == 'bin' and it[1] == '+':
            return self.split_iter(it[2], st) + self.split_iter(it[3], st)
        if it[0] == 'call' and it[1] == 'itertools.chain':
            r = []
            for a in it[2]:
                r += self.split_iter(a, st)
            return r
        if it[0] == 'const' and isinstance(it[1], (tuple,)):
            return [('lit', [C(x) for x in it[1]])]
        if it[0] == 'range' and all(is_const(x) and isinstance(x[1], int) for x in it[1:]):
            r = range(it[1][1], it[2][1], it[3][1])
            if len(r) <= self.unroll:
                return [('lit', [C(x) for x in r])]
        return [('it', it)]

    def split_parts(self, c, st, orig):
        out = []
        for p in c[1]:
            if p[0] == 'i':
                v = p[1]
            elif p[0] == 'kv':
                v = p[1]
            elif p[0] == 's':
                out += self.split_iter(p[1], st) if c[0] != 'dict' else [('it', p[1])]
                continue
            elif p[0] == 'm' and c[0] in ('list', 'set') and not p[4]:
                out.append(('m', p))
                continue
            else:
                return [('it', orig)]
            if out and out[-1][0] == 'lit':
                out[-1][1].append(v)
            else:
                out.append(('lit', [v]))
        if sum(len(o[1]) for o in out if o[0] == 'lit') > 40:
            return [('it', orig)]
        return out

    def strip_iter(self, it, st):
        while True:
            if it[0] == 'call' and it[1] in ('list', 'tuple', 'iter', 'copy.deepcopy', 'copy.copy') and len(it[2]) == 1:
                it = it[2][0]
            elif it[0] == 'mcall' and it[2] in ('keys', 'copy') and not it[3]:
                it = it[1]
            else:
                return it

    def iter_elem(self, it, lid, st):
        """canonical iterable and the value bound at each iteration"""
        if it[0] == 'call' and it[1] == 'enumerate':
            base = self.strip_iter(it[2][0], st)
            start = dict(it[3]).get('start', it[2][1] if len(it[2]) > 1 else C(0))
            base2, e = self.iter_elem(base, lid, st)
            pos = ('pos', base2, lid)
            if start != C(0):
                pos = self.binop('+', pos, start)
            return base2, ('tuple', pos, e)
        if it[0] == 'call' and it[1] == 'zip':
            bases = [self.strip_iter(x, st) for x in it[2]]
            els = [self.iter_elem(b, lid, st) for b in bases]
            return ('zip',) + tuple(b for b, _ in els), ('tuple',) + tuple(e for _, e in els)
        if it[0] == 'call' and it[1] == 'reversed' and len(it[2]) == 1:
            b, e = self.iter_elem(self.strip_iter(it[2][0], st), lid, st)
            return ('reversed', b), subst(e, b, ('reversed', b))
        if it[0] == 'call' and it[1] == 'sorted' and len(it[2]) == 1 and it[2][0][0] == 'mcall' and it[2][0][2] == 'items' \
                and not it[2][0][3] and not any(k == 'key' for k, _ in it[3]):
            # the keys are different, so the values do not matter for the order
            d = it[2][0][1]
            b = ('call', 'sorted', (d,), it[3])
            k = ('elem', b, lid)
            return b, ('tuple', k, ('idx', d, k))
        if it[0] == 'mcall' and it[2] == 'items' and not it[3]:
            k = ('elem', it[1], lid)
            return it[1], ('tuple', k, ('idx', it[1], k))
        if it[0] == 'mcall' and it[2] == 'values' and not it[3]:
            k = ('elem', it[1], lid)
            return it[1], ('idx', it[1], k)
        if it[0] == 'range' and it[1] == C(0) and it[3] == C(1) and it[2][0] == 'len':
            base = it[2][1]
            return base, ('pos', base, lid)
        if it[0] == 'range' and it[2][0] == 'len' and it[3] == C(1) and is_const(it[1]) and isinstance(it[1][1], int) and it[1][1] > 0:
            base = ('idx', it[2][1], ('slice', it[1], NONE, NONE))
            return base, self.binop('+', ('pos', base, lid), it[1])
        if it[0] == 'call' and it[1] == 'map' and len(it[2]) == 2:
            b, e = self.iter_elem(self.strip_iter(it[2][1], st), lid, st)
            return b, ('apply', it[2][0], e)
        return it, ('elem', it, lid)

    def forloop(self, s, st, eff, fr, comp=None):
        it = self.ev(s.iter, st, eff, fr)
        segs = self.split_iter(it, st)
        acc = {}
        broke = None
        for kind, data in segs:
            if kind == 'lit':
                for v in data:
                    self.assign(s.target, v, st, eff, fr)
                    be = []
                    f = self.block(s.body, st, be, fr)
                    eff.append(N('iter', self.loc(s, fr), fr.fi, body=be, val=v))
                    nx = f.pop('next', None)
                    ct = f.pop('cont', None)
                    bk = f.pop('break', None)
                    if bk is not None:
                        # partially breaking literal loops: join states, keep going conservatively
                        broke = bk if broke is None else (mk_or(broke[0], bk[0]), self.join(bk[0], bk[1], broke[1]), NONE)
                    acc = self.seq_flow(acc, f)
                    if nx and ct:
                        st = self.join(ct[0], ct[1], nx[1])
                    elif nx or ct:
                        st = (nx or ct)[1]
                    else:
                        if broke is not None:
                            acc['next'] = (TRUE, broke[1], NONE)
                        return acc
            else:
                f = self.loop_generic(s, kind, data, st, eff, fr)
                nx = f.pop('next', None)
                acc = self.seq_flow(acc, f)
                if nx is None:
                    return acc
                st = nx[1]
        if broke is not None:
            st = self.join(broke[0], broke[1], st)
        if s.orelse:
            f = self.block(s.orelse, st, eff, fr)
            return self.seq_flow(acc, f)
        acc['next'] = (TRUE, st, NONE)
        return acc

    def loop_generic(self, s, kind, data, st, eff, fr):
        n = self.fresh()
        lid = ('LID', n)

        def binder(stt, eff_):
            if kind == 'm':
                return
            self.assign(s.target, el, stt, eff_, fr)
        if kind == 'm':
            # iterating over a comprehension result: fuse
            _, mlid, mit, parts, _brk = data
            iterV = mit
            lid = mlid
            leaves = []

            def body_runner(stt, eff_):
                return self.run_parts(parts, s, stt, eff_, fr)
        else:
            iterV, el = self.iter_elem(data, lid, st)
            el = self.resolve_apply(el, st, eff, fr)

            def body_runner(stt, eff_):
                self.assign(s.target, el, stt, eff_, fr)
                return self.block(s.body, stt, eff_, fr)
        return self.run_loop(body_runner, None, lid, iterV, st, eff, fr, s)

    def resolve_apply(self, el, st, eff, fr):
        if el[0] == 'apply':
            return self.call_value(el[1], [el[2]], {}, st, eff, fr, None)
        if el[0] == 'tuple' and any(isinstance(x, tuple) and x[0] == 'apply' for x in el[1:]):
            return ('tuple',) + tuple(self.resolve_apply(x, st, eff, fr) for x in el[1:])
        return el

    def run_parts(self, parts, s, st, eff, fr):
        acc = {}
        for p in parts:
            if p[0] == 'i':
                self.assign(s.target, p[1], st, eff, fr)
                f = self.block(s.body, st, eff, fr)
                ct = f.pop('cont', None)
                nx = f.pop('next', None)
                acc = self.seq_flow(acc, f)
                if nx and ct:
                    st = self.join(ct[0], ct[1], nx[1])
                elif nx or ct:
                    st = (nx or ct)[1]
                else:
                    return acc
            elif p[0] == 'ifp':
                te, ee = [], []
                s1, s2 = st.copy(), st.copy()
                self.assume(s1, p[1])
                self.assume(s2, mk_not(p[1]))
                f1 = self.run_parts(p[2], s, s1, te, fr)
                f2 = self.run_parts(p[3], s, s2, ee, fr)
                eff.append(N('if', self.loc(s, fr), fr.fi, cond=p[1], then=te, els=ee))
                f = self.merge_flow(p[1], f1, f2)
                nx = f.pop('next', None)
                acc = self.seq_flow(acc, f)
                if nx is None:
                    return acc
                st = nx[1]
            else:
                seg = ('it', ('list', (p,))) if p[0] != 'm' else ('m', p)
                f = self.loop_generic(s, seg[0], seg[1], st, eff, fr)
                nx = f.pop('next', None)
                acc = self.seq_flow(acc, f)
                if nx is None:
                    return acc
                st = nx[1]
        acc['next'] = (TRUE, st, NONE)
        return acc

    def modified(self, pre, posts):
        env, heap, cont = set(), set(), set()
        for p in posts:
            for k, v in p.env.items():
                if pre.env.get(k) != v:
                    env.add(k)
            for k, v in p.heap.items():
                if pre.heap.get(k) != v:
                    heap.add(k)
            for k, v in p.cont.items():
                if k in pre.cont and pre.cont.get(k) != v:
                    cont.add(k)
        return env, heap, cont

    def run_loop(self, body_runner, condf, lid, iterV, st, eff, fr, s, while_=False, fixed=None):
        fixed = fixed or {}
        env, heap, cont = self.renewed(s, st, fr), set(), set()
        lost = set()
        for _ in range(4):
            t = self.place(st, lid, env, heap, cont, lost)
            for k, v in fixed.items():
                t.env[k] = v
            pre = t.copy()
            sink = []
            if condf is not None:
                c = condf(t, sink)
                self.assume(t, c)
            f = body_runner(t, sink)
            posts = [x[1] for k, x in f.items() if k in ('next', 'cont', 'break')]
            e2, h2, c2 = self.modified(pre, posts)
            e2 -= set(fixed)
            l2 = {k for x in [f[y][1] for y in ('next', 'cont') if y in f] for k in st.facts if x.facts.get(k) != st.facts[k]}
            if e2 <= env and h2 <= heap and c2 <= cont and l2 <= lost:
                break
            lost |= l2
            env |= e2
            heap |= h2
            cont |= c2
        t = self.place(st, lid, env, heap, cont, lost)
        for k, v in fixed.items():
            t.env[k] = v
        pre = t.copy()
        be = []
        c = TRUE
        ce = []
        if condf is not None:
            c = condf(t, ce)
            self.assume(t, c)
        f = body_runner(t, be)
        node = N('while' if while_ else 'loop', self.loc(s, fr), fr.fi, lid=lid, iter=iterV, cond=c, condeff=ce, body=be,
                 has_break='break' in f, has_ret='ret' in f)
        eff.append(node)
        self.loops[lid] = node
        ends = [f[k] for k in ('cont', 'next') if k in f]
        if len(ends) == 2:
            end = self.join(ends[0][0], ends[0][1], ends[1][1])
        elif ends:
            end = ends[0][1]
        else:
            end = None
        brk = f.get('break')
        # exit state
        out = st.copy()
        out.facts = {k: v for k, v in st.facts.items() if pre.facts.get(k) == v}
        brkflag = bool(brk) or 'ret' in f
        carry = {}
        for k in sorted(env, key=str):
            src_ = end if end is not None else (brk[1] if brk else None)
            e_ = deref(src_.env.get(k, ('unbound', k)), src_) if src_ is not None else NONE
            b_ = deref(brk[1].env.get(k, ('unbound', k)), brk[1]) if brk and end is not None else None
            carry[k] = (deref(st.env.get(k, ('unbound', k)), st), e_, b_ if b_ != e_ else None)
        for k in sorted(heap, key=str):
            src_ = end if end is not None else (brk[1] if brk else None)
            e_ = deref(src_.heap.get(k, ('attr',) + k), src_) if src_ is not None else NONE
            carry[('heap',) + k] = (deref(st.heap.get(k, ('attr',) + k), st), e_, None)
        node.a['carry'] = carry
        for k in env:
            init = st.env.get(k, ('unbound', k))
            if end is not None:
                e = end.env.get(k, ('unbound', k))
            else:
                e = brk[1].env.get(k, ('unbound', k)) if brk else NONE
            lv = ('lv', lid, k)
            if e == lv and not brk:
                out.env[k] = init
            elif brk and end is not None and brk[1].env.get(k) != e:
                out.env[k] = ('lout', lid, k, init, mk_ite(('brk', lid), brk[1].env.get(k, ('unbound', k)), e))
            else:
                out.env[k] = ('lout', lid, k, init, e)
        for k in heap:
            init = st.heap.get(k, ('attr',) + k)
            src = end if end is not None else (brk[1] if brk else None)
            e = src.heap.get(k, ('attr',) + k) if src else NONE
            out.heap[k] = ('lout', lid, ('heap',) + k, init, e)
        for k in cont:
            init = st.cont[k]
            src = end if end is not None else (brk[1] if brk else None)
            e = src.cont.get(k) if src else None
            ph = ('s', ('acc', lid, k))
            res = ('unkc',)
            if e is not None and e[0] in ('list', 'dict', 'set') and init[0] == e[0]:
                parts = self.after_acc(e[1], ph)
                if parts is not None:
                    res = (init[0], init[1] + (('m', lid, iterV if not while_ else ('while', c), parts, brkflag),))
            out.cont[k] = res
        for p in [end, brk[1] if brk else None]:
            if p is None:
                continue
            for k, v in p.cont.items():
                if k not in out.cont:
                    out.cont[k] = v
        res = {}
        if 'ret' in f:
            g, s_, v = f['ret']
            res['ret'] = (('looped', lid, g), s_, ('inloop', lid, v))
        if 'raise' in f:
            res['raise'] = (('looped', lid, f['raise'][0]), f['raise'][1], f['raise'][2])
        infinite = while_ and c == TRUE and not brk
        if not infinite:
            res['next'] = (TRUE, out, NONE)
        return res

    def renewed(self, s, st, fr):
        """names rebound in the loop to a new object of a class with state: never the object from before the loop"""
        out = set()
        body = getattr(s, 'body', None)
        if not isinstance(body, list):
            return out
        for x in body:
            for n in ast.walk(x):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                    r = self.prog.lookup(fr.mod.name, n.value.func.id)
                    if isinstance(r, ClassInfo) and self.prog.stateful(r):
                        for t in n.targets:
                            if isinstance(t, ast.Name) and t.id in st.env:
                                out.add(t.id)
        return out

    def after_acc(self, parts, ph):
        """parts appended after the accumulator placeholder (handles gated joins)"""
        if parts and parts[0] == ph:
            return parts[1:]
        return None

    def place(self, st, lid, env, heap, cont, lost=()):
        t = st.copy()
        for k in env:
            t.env[k] = ('lv', lid, k)
        for k in heap:
            t.heap[k] = ('lv', lid, ('heap',) + k)
        for k in cont:
            c = st.cont[k]
            if c[0] in ('list', 'dict', 'set'):
                t.cont[k] = (c[0], (('s', ('acc', lid, k)),))
            else:
                t.cont[k] = ('unkc',)
        def stale(f):
            return contains_any(f, lambda x: x[0] == 'attr' and (x[1], x[2]) in heap) or \
                contains_any(f, lambda x: x in cont)
        t.facts = {k: v for k, v in t.facts.items() if not stale(k) and k not in lost}
        return t

    def whileloop(self, s, st, eff, fr):
        while not s.orelse and s.body and isinstance(s.test, ast.Constant) and s.test.value and len(s.body) > 1 and \
                isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 and \
                isinstance(s.body[0].body[0], ast.Break):
            # while True: if X: break; ...
            t = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.body[0].test), s.test)
            s = ast.copy_location(ast.While(test=t, body=s.body[1:], orelse=[]), s)
        lid = ('LID', self.fresh())
        condf = lambda t, sink: self.simp(self.cond(s.test, t, sink, fr), t)
        runner = lambda t, e: self.block(s.body, t, e, fr)
        save = self.counter
        sink = []
        # probe for a counting loop
        probe = self.run_loop(runner, condf, lid, NONE, st.copy(), sink, fr, s, while_=True)
        node = sink[-1]
        ctr = self.counter_loop(node, probe, st, lid)
        if ctr is not None:
            var, start, stop = ctr
            iterV = ('range', start, stop, C(1))
            iv, el = self.iter_elem(iterV, lid, st)
            runner2 = lambda t, e: self.block(s.body, t, e, fr)
            f = self.run_loop(runner2, None, lid, iv, st, eff, fr, s, fixed={var: el})
            if 'next' in f:
                f['next'][1].env[var] = stop
        else:
            eff.extend(sink)
            f = probe
        if s.orelse and 'next' in f:
            nx = f.pop('next')
            f = self.seq_flow(f, self.block(s.orelse, nx[1], eff, fr))
        return f

    def counter_loop(self, node, flow, st, lid):
        c = node.cond
        if c[0] == 'cmp' and c[1] == '<' and c[2][0] == 'lv' and c[2][1] == lid and isinstance(c[2][2], str):
            stop = c[3]
        elif c[0] == 'not' and c[1][0] == 'cmp' and c[1][1] == '==' and any(
                x[0] == 'lv' and x[1] == lid and isinstance(x[2], str) for x in (c[1][2], c[1][3])):
            a, b = c[1][2], c[1][3]
            if not (a[0] == 'lv' and a[1] == lid):
                a, b = b, a
            c = ('cmp', '<', a, b)
            stop = b
        else:
            return None
        var = c[2][2]
        if contains_any(stop, lambda x: x[0] == 'lv' and x[1] == lid):
            return None
        if node.has_break or node.has_ret or 'next' not in flow:
            return None
        post = flow['next'][1].env.get(var)
        if post is None or post[0] != 'lout':
            return None
        if lin_diff(post[4], c[2]) != 1:
            return None
        start = st.env.get(var)
        if start is None:
            return None
        return var, start, stop

    # -- conditions
    def cond(self, e, st, eff, fr):
        return self.truthv(self.ev(e, st, eff, fr), st)

    def truthv(self, v, st):
        if v[0] == 'obj':
            c = st.cont.get(v)
            if c is not None:
                if c[0] in ('list', 'dict', 'set'):
                    if not c[1]:
                        return FALSE
                    if any(p[0] in ('i', 'kv') for p in c[1]):
                        return TRUE
                    if c[0] == 'list' and all(p[0] in ('m', 'ifp') for p in c[1]):
                        w = sized(deref(v, st))
                        if w[0] == 'list':
                            return ('truthy', w)
                        if w[0] in ('sym', 'attr', 'idx', 'rcall', 'mcall'):
                            return truth(w)
                return ('truthy', v)
            cls = self.vclass(v)
            if cls is not None and cls.find('__len__') is None and cls.find('__bool__') is None:
                return TRUE
        return truth(v)

    # -- expressions
    def ev(self, e, st, eff, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    self.ev(ch, st, eff, fr)
            return ('unk', type(e).__name__, self.fresh())
        return m(e, st, eff, fr)

    def ev_Constant(self, e, st, eff, fr):
        return ('const', e.value)

    def ev_JoinedStr(self, e, st, eff, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, st, eff, fr)
                spec = ''
                if v.format_spec is not None:
                    sv = deref(self.ev_JoinedStr(v.format_spec, st, eff, fr), st)
                    if all(is_const(p) for p in sv[1:]):
                        spec = ''.join(str(p[1]) for p in sv[1:])
                    else:
                        spec = sv
                parts.append(fspec(x, spec, chr(v.conversion) if v.conversion and v.conversion > 0 else None))
        return ('fmt',) + tuple(parts)

    def ev_Name(self, e, st, eff, fr):
        n = e.id
        if n in st.env and n not in fr.globals:
            return st.env[n]
        if fr.closure and n in fr.closure:
            return fr.closure[n]
        r = self.prog.lookup(fr.mod.name, n)
        if r is None:
            if n in ('True', 'False', 'None'):
                return C({'True': True, 'False': False, 'None': None}[n])
            return ('builtin', n)
        return self.resolved(r, st, fr)

    def resolved(self, r, st=None, fr=None):
        if isinstance(r, FuncInfo):
            return ('func', r.qual)
        if isinstance(r, ClassInfo):
            return ('class', r.qual)
        if isinstance(r, Module):
            return ('module', r.name)
        if isinstance(r, tuple) and r[0] == 'ext':
            return ('ext', r[1])
        if isinstance(r, tuple) and r[0] == 'assign':
            _, m, name = r
            vals = m.assigns[name]
            if len(vals) == 1 and vals[0] is not None and isinstance(vals[0], (ast.Constant, ast.Call, ast.Attribute, ast.Tuple)):
                if isinstance(vals[0], ast.Constant):
                    return C(vals[0].value)
            if st is not None and self.modconsts < 5 and self.prog.fixed_global(m, name):
                self.modconsts += 1
                try:
                    return self.ev(vals[0], State({}, st.heap, st.cont, {}), [], Frame(fr.fi, m, None))
                finally:
                    self.modconsts -= 1
            if (m.name, name) in self.prog.volatile:
                return ('unk', 'global', self.fresh())
            return ('global', m.name + '.' + name)
        return ('unk', 'name', self.fresh())

    def ev_Attribute(self, e, st, eff, fr):
        b = self.ev(e.value, st, eff, fr)
        return self.getattr(b, e.attr, st, eff, fr, e)

    def getattr(self, b, name, st, eff, fr, node):
        if b[0] == 'module':
            return self.resolved(self.prog.lookup(b[1], name) or ('ext', b[1] + '.' + name), st, fr)
        if b[0] == 'ext':
            return ('ext', b[1] + '.' + name)
        if b[0] == 'class':
            ci = self.prog.cls(b[1])
            f = ci.find(name)
            if f is not None:
                if f.is_classmethod:
                    return ('bound', b, f.qual)
                return ('func', f.qual)
            c, ex = ci.find_const(name)
            if ex is not None:
                return self.ev(ex, State(), [], Frame(fr.fi, c.mod, c))
            if name == '__name__':
                return C(ci.name)
            return ('attr', b, name)
        if b[0] == 'super':
            ci = self.prog.cls(b[1])
            base = self.prog.cls(b[2])
            f = base.find(name, after=ci)
            if f is not None:
                return ('bound', b[3], f.qual)
            return ('attr', b, name)
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if b[0] == 'ite':
            x = self.getattr(b[2], name, st, eff, fr, node) if b[2] != NONE else None
            y = self.getattr(b[3], name, st, eff, fr, node) if b[3] != NONE else None
            if x is None:
                return y if y is not None else ('attr', b, name)
            if y is None:
                return x
            if x[0] != 'bound' and y[0] != 'bound':
                return mk_ite(b[1], x, y)
            return ('attr', b, name)
        if b[0] == 'new' and not (b[1].split('.')[-1][0:0]):
            pass
        cls = self.vclass(b)
        if cls is not None:
            if name == '__class__':
                return ('classof', b) if b[0] != 'obj' else ('class', cls.qual)
            f = cls.find(name)
            if f is not None:
                if f.is_property:
                    if self.opaque(f):
                        return ('attr', b, name)
                    return self.call_func(f, [], {}, st, eff, fr, node, self_val=b)
                if f.is_static:
                    return ('func', f.qual)
                if f.is_classmethod:
                    return ('bound', ('class', cls.qual), f.qual)
                return ('bound', b, f.qual)
            c, ex = cls.find_const(name)
            if ex is not None:
                return self.ev(ex, State(), [], Frame(fr.fi, c.mod, c))
        if b[0] == 'tuple' or b[0] == 'list':
            pass
        if name == '__class__':
            return ('classof', b)
        return ('attr', b, name)

    def ev_Subscript(self, e, st, eff, fr):
        b = self.ev(e.value, st, eff, fr)
        i = self.ev(e.slice, st, eff, fr)
        return self.index(b, i, st)

    def index(self, b, i, st, unpack=None):
        if b[0] == 'obj' and b in st.cont:
            c = st.cont[b]
            if c[0] == 'dict':
                if is_const(i) and all(p[0] == 'kv' and is_const(p[1]) for p in c[1]):
                    for p in reversed(c[1]):
                        if p[1] == i:
                            return p[2]
                    return ('idx', c, i)
                for p in reversed(c[1]):
                    if p[0] == 'kv' and p[1] == i:
                        return p[2]
                    if p[0] == 'kv' and is_const(p[1]) and is_const(i):
                        continue
                    break
                return ('idx', b, i)
            if c[0] == 'list' and is_const(i) and isinstance(i[1], int) and all(p[0] == 'i' for p in c[1]):
                if -len(c[1]) <= i[1] < len(c[1]):
                    return c[1][i[1]][1]
            if c[0] == 'list' and is_const(i) and len(c[1]) == 1 and c[1][0][0] == 'm':
                r = self.index(deref(b, st), i, st)
                if r[0] != 'idx' or r[1][0] != 'list':
                    return r
            return ('idx', b, i)
        if b[0] == 'dict' and len(b) == 2:
            for p in b[1]:
                if p[0] == 'kv' and p[1] == i:
                    return p[2]
        if b[0] == 'tuple' and is_const(i) and isinstance(i[1], int) and -len(b) + 1 <= i[1] < len(b) - 1:
            return b[1:][i[1]]
        if b[0] == 'const' and is_const(i) and isinstance(b[1], (str, tuple)):
            try:
                return C(b[1][i[1]])
            except Exception:
                pass
        if b[0] == 'ite':
            return mk_ite(b[1], self.index(b[2], i, st), self.index(b[3], i, st))
        if i[0] == 'bin':
            l = lin(i)
            if l is not None and l.get(('len', b)) == 1 and set(l) == {('len', b), None} and isinstance(l[None], int) and l[None] < 0:
                i = C(l[None])
        if i[0] == 'pos' and i[1] == b:
            return ('elem', b, i[2])
        if i[0] == 'bin':
            l = lin(i)
            ps = [k for k in l if k is not None] if l is not None else ()
            if len(ps) == 1 and ps[0][0] == 'pos' and l[ps[0]] == 1 and \
                    ps[0][1] == ('idx', b, ('slice', C(l.get(None, 0)), NONE, NONE)):
                return ('elem', ps[0][1], ps[0][2])
        if i[0] == 'const' and isinstance(i[1], int):
            w = b
            if w[0] == 'list' and len(w) == 2 and len(w[1]) == 1 and w[1][0][0] == 'm' and not w[1][0][4] and len(w[1][0][3]) == 1 \
                    and w[1][0][3][0][0] == 'i' and w[1][0][2][0] in ('mcall', 'sym', 'attr', 'idx', 'rcall', 'elem'):
                # the k-th of the values computed for each element
                _, lid, it, ((_, e),), _ = w[1][0]
                el = ('elem', it, lid)
                r = subst(e, el, self.index(it, i, st))
                if not contains_any(r, lambda t: t == lid):
                    return r
        if b[0] == 'idx' and b[2][0] == 'slice' and b[2][3] in (NONE, C(1)) and i[0] == 'const' and type(i[1]) is int and i[1] >= 0:
            lo, hi = b[2][1], b[2][2]
            lo = 0 if lo == NONE else lo[1] if lo[0] == 'const' and type(lo[1]) is int else -1
            if lo >= 0 and (hi == NONE or hi[0] == 'const' and type(hi[1]) is int and lo + i[1] < hi[1]):
                # an element of the front or the rest
                return self.index(b[1], C(lo + i[1]), st)
        if b[0] == 'call' and b[1] in ('list', 'tuple') and len(b[2]) == 1 and i[0] != 'slice':
            return self.index(b[2][0], i, st) if b[2][0][0] not in ('mcall',) else ('idx', b, i)
        return ('idx', b, i)

    def ev_Slice(self, e, st, eff, fr):
        g = lambda x: self.ev(x, st, eff, fr) if x is not None else NONE
        return ('slice', g(e.lower), g(e.upper), g(e.step))

    def ev_Tuple(self, e, st, eff, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = ()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    parts += self.splat_parts(self.ev(x.value, st, eff, fr), st)
                else:
                    parts += (('i', self.ev(x, st, eff, fr)),)
            if all(p[0] == 'i' for p in parts):
                return ('tuple',) + tuple(p[1] for p in parts)
            return ('list', parts)
        return ('tuple',) + tuple(self.ev(x, st, eff, fr) for x in e.elts)

    def newobj(self, kind, content, st):
        o = ('obj', self.fresh())
        self.obj_kind[o] = kind
        st.cont[o] = content
        return o

    def splat_parts(self, v, st):
        if v[0] == 'obj' and v in st.cont and st.cont[v][0] in ('list', 'set'):
            return st.cont[v][1]
        if v[0] == 'tuple':
            return tuple(('i', x) for x in v[1:])
        if v[0] in ('list', 'set') and len(v) == 2:
            return v[1]
        if v[0] == 'call' and v[1] in ('list', 'tuple', 'set') and len(v[2]) == 1:
            return self.splat_parts(v[2][0], st)
        if v[0] == 'bin' and v[1] == '|' and any(x[0] == 'call' and x[1] in ('set', 'frozenset') or x[0] == 'set' for x in v[2:4]):
            return self.splat_parts(v[2], st) + self.splat_parts(v[3], st)
        return (('s', v),)

    def ev_List(self, e, st, eff, fr):
        parts = ()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts += self.splat_parts(self.ev(x.value, st, eff, fr), st)
            else:
                parts += (('i', self.ev(x, st, eff, fr)),)
        return self.newobj('list', ('list', parts), st)

    def ev_Set(self, e, st, eff, fr):
        return self.newobj('set', ('set', tuple(('i', self.ev(x, st, eff, fr)) for x in e.elts)), st)

    def ev_Dict(self, e, st, eff, fr):
        parts = ()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st, eff, fr)
                if d[0] == 'obj' and d in st.cont and st.cont[d][0] == 'dict':
                    parts += st.cont[d][1]
                else:
                    parts += (('s', d),)
            else:
                kk = self.ev(k, st, eff, fr)
                parts += (('kv', kk, self.ev(v, st, eff, fr)),)
        return self.newobj('dict', ('dict', parts), st)

    def comp(self, e, kind, st, eff, fr):
        """comprehension as an append loop"""
        o = self.newobj(kind, (kind, ()), st)
        tmp = '.comp%d' % self.fresh()
        loc = dict(lineno=e.lineno, col_offset=0)

        def leaf():
            return [CompLeaf(e, kind, tmp, **loc)]

        def build(k):
            if k == len(e.generators):
                return leaf()
            g = e.generators[k]
            body = build(k + 1)
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[], **loc)]
            return [ast.For(target=g.target, iter=g.iter, body=body, orelse=[], **loc)]
        saved = {}
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            saved[n] = st.env.get(n)
        st.env[tmp] = o
        f = self.block(build(0), st, eff, fr)
        st2 = f['next'][1] if 'next' in f else st
        st.heap, st.cont, st.facts = st2.heap, st2.cont, st2.facts
        for k, v in st2.env.items():
            st.env[k] = v
        for n in names:
            if saved[n] is None:
                st.env.pop(n, None)
            else:
                st.env[n] = saved[n]
        st.env.pop(tmp, None)
        return o

    def ev_ListComp(self, e, st, eff, fr):
        return self.comp(e, 'list', st, eff, fr)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, st, eff, fr):
        return self.comp(e, 'set', st, eff, fr)

    def ev_DictComp(self, e, st, eff, fr):
        return self.comp(e, 'dict', st, eff, fr)

    def ev_BinOp(self, e, st, eff, fr):
        a = self.ev(e.left, st, eff, fr)
        b = self.ev(e.right, st, eff, fr)
        op = BINOPS.get(type(e.op), '?')
        if op == '+' and a[0] == 'obj' and b[0] == 'obj' and st.cont.get(a, ('',))[0] == 'list' and st.cont.get(b, ('',))[0] == 'list':
            return self.newobj('list', ('list', st.cont[a][1] + st.cont[b][1]), st)
        if op == '|' and a[0] == 'obj' and st.cont.get(a, ('',))[0] == 'set':
            return self.newobj('set', ('set', st.cont[a][1] + self.splat_parts(b, st)), st)
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            try:
                if op == '+':
                    return C(a[1] + b[1])
                if op == '-':
                    return C(a[1] - b[1])
                if op == '*':
                    return C(a[1] * b[1])
                if op == '%' and isinstance(a[1], (int, float)):
                    return C(a[1] % b[1])
            except Exception:
                pass
        if op == '*' and a == C(1):
            return b
        if op == '*' and b == C(1):
            return a
        if op in '+-' and b == C(0):
            return a
        if op == '+' and a == C(0):
            return b
        if op in '+-' and not any(x[0] in ('obj', 'list', 'fmt') or (is_const(x) and isinstance(x[1], str)) for x in (a, b)):
            d = lin(('bin', op, a, b))
            if d is not None and None in d and len(d) <= 3 and a[0] != 'unk' \
                    and all(k is None or k[0] in ('lv', 'pos', 'elem', 'len', 'sym', 'attr', 'lout') for k in d):
                return mk_lin(d)
        return ('bin', op, a, b)

    def ev_UnaryOp(self, e, st, eff, fr):
        v = self.ev(e.operand, st, eff, fr)
        if isinstance(e.op, ast.Not):
            return mk_not(self.simp(self.truthv(v, st), st))
        if isinstance(e.op, ast.USub):
            if is_const(v) and isinstance(v[1], (int, float)):
                return C(-v[1])
            return ('neg', v)
        if isinstance(e.op, ast.UAdd):
            return v
        return ('un', type(e.op).__name__, v)

    def ev_BoolOp(self, e, st, eff, fr):
        # value semantics:  a or b  ==  ite(truth(a), a, b)
        isand = isinstance(e.op, ast.And)
        cur = self.ev(e.values[0], st, eff, fr)
        for x in e.values[1:]:
            t = self.simp(self.truthv(cur, st), st)
            sub = []
            s2 = st.copy()
            self.assume(s2, t if isand else mk_not(t))
            b = self.ev(x, s2, sub, fr)
            if sub:
                eff.append(N('if', self.loc(e, fr), fr.fi, cond=t, then=sub if isand else [], els=[] if isand else sub))
            for k, v in s2.cont.items():
                if k not in st.cont:
                    st.cont[k] = v
            if isand:
                if is_bool(cur) and is_bool(b):
                    cur = mk_and(cur, b)
                else:
                    cur = mk_ite(t, b, cur) if is_bool(cur) is False else mk_ite(t, b, FALSE)
            else:
                if is_bool(cur) and is_bool(b):
                    cur = mk_or(cur, b)
                else:
                    cur = mk_ite(t, cur, b) if is_bool(cur) is False else mk_ite(t, TRUE, b)
        return cur

    def ev_IfExp(self, e, st, eff, fr):
        c = self.simp(self.cond(e.test, st, eff, fr), st)
        if c == TRUE:
            return self.ev(e.body, st, eff, fr)
        if c == FALSE:
            return self.ev(e.orelse, st, eff, fr)
        te, ee = [], []
        s1, s2 = st.copy(), st.copy()
        self.assume(s1, c)
        self.assume(s2, mk_not(c))
        a = self.ev(e.body, s1, te, fr)
        b = self.ev(e.orelse, s2, ee, fr)
        if te or ee:
            eff.append(N('if', self.loc(e, fr), fr.fi, cond=c, then=te, els=ee))
        j = self.join(c, s1, s2)
        st.env, st.heap, st.cont, st.facts = j.env, j.heap, j.cont, j.facts
        return mk_ite(c, a, b)

    def ev_NamedExpr(self, e, st, eff, fr):
        v = self.ev(e.value, st, eff, fr)
        st.env[e.target.id] = v
        return v

    def ev_Compare(self, e, st, eff, fr):
        left = self.ev(e.left, st, eff, fr)
        fs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, eff, fr)
            fs.append(self.compare(op, left, right, st))
            left = right
        return mk_and(*fs)

    def compare(self, op, a, b, st):
        t = type(op)
        a1, b1 = a, b
        if t in (ast.Is, ast.IsNot):
            if b == NONE or a == NONE:
                x = a if b == NONE else b
                if x == NONE:
                    f = TRUE
                elif x[0] in ('obj', 'tuple', 'new', 'const', 'bin', 'len', 'fmt', 'func', 'class', 'lambda', 'list', 'dict'):
                    f = FALSE
                elif x[0] == 'idx' and x[1][0] == 'obj' and st.cont.get(x[1], ('',))[0] == 'dict' and all(
                        p[0] == 'kv' and p[2][0] in ('func', 'class', 'ext', 'lambda', 'bound') for p in st.cont[x[1]][1]):
                    f = FALSE
                elif x[0] == 'ite':
                    f = mk_or(mk_and(x[1], self.compare(ast.Is(), x[2], NONE, st)),
                              mk_and(mk_not(x[1]), self.compare(ast.Is(), x[3], NONE, st)))
                else:
                    f = ('isnone', x)
            elif is_const(a) and is_const(b):
                f = C(a[1] is b[1])
            elif b in (TRUE, FALSE) and is_bool(a):
                f = a if b == TRUE else mk_not(a)
            else:
                f = ('is', a, b)
            return f if t is ast.Is else mk_not(f)
        if t in (ast.In, ast.NotIn):
            f = self.contains_f(a, b, st)
            return f if t is ast.In else mk_not(f)
        ops = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
        if t in (ast.Eq, ast.NotEq) and b in (TRUE, FALSE) and is_bool(a):
            f = a if b == TRUE else mk_not(a)
            return f if t is ast.Eq else mk_not(f)
        return mk_cmp(ops[t], a, b)

    def contains_f(self, a, b, st):
        b = self.strip_iter(b, st)
        c = b
        if b[0] == 'obj' and b in st.cont:
            c = st.cont[b]
        if c[0] == 'tuple':
            return mk_or(*[mk_cmp('==', a, x) for x in c[1:]])
        if c[0] in ('list', 'set') and len(c) == 2 and all(p[0] == 'i' for p in c[1]):
            return mk_or(*[mk_cmp('==', a, p[1]) for p in c[1]]) if c[1] else FALSE
        if c[0] == 'dict' and len(c) == 2 and all(p[0] == 'kv' for p in c[1]):
            return mk_or(*[mk_cmp('==', a, p[1]) for p in c[1]]) if c[1] else FALSE
        if c[0] == 'const' and is_const(a) and isinstance(c[1], (str, tuple, frozenset)):
            try:
                return C(a[1] in c[1])
            except Exception:
                pass
        if c[0] == 'call' and c[1] in ('set', 'frozenset', 'list', 'tuple', 'sorted') and len(c[2]) == 1:
            return self.contains_f(a, c[2][0], st)
        if (b[0] == 'attr' and b[2] == '__dict__' or b[0] == 'call' and b[1] == 'vars' and len(b[2]) == 1) and is_const(a):
            return ('truthy', ('call', 'hasattr', (b[1] if b[0] == 'attr' else b[2][0], a), ()))
        cls = self.vclass(b)
        if cls is not None:
            f = cls.find('__contains__')
            if f is not None and not self.opaque(f):
                r = self.call_func(f, [a], {}, st, [], Frame(f, f.mod, f.cls), f.node, self_val=b)
                return truth(r)
        if a[0] == 'elem' and a[1] == b:
            return TRUE
        return ('in', a, b)

    def ev_Lambda(self, e, st, eff, fr):
        lid = self.fresh()
        self.lambdas[lid] = (e, st, fr)
        return ('lambda', lid)

    def ev_Starred(self, e, st, eff, fr):
        return ('star', self.ev(e.value, st, eff, fr))

    def ev_Yield(self, e, st, eff, fr):
        v = self.ev(e.value, st, eff, fr) if e.value is not None else NONE
        eff.append(N('yield', self.loc(e, fr), fr.fi, val=v))
        return ('unk', 'yield', self.fresh())

    def ev_YieldFrom(self, e, st, eff, fr):
        v = self.ev(e.value, st, eff, fr)
        eff.append(N('yield', self.loc(e, fr), fr.fi, val=('star', v)))
        return ('unk', 'yield', self.fresh())

    # -- calls
    def ev_Call(self, e, st, eff, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            if e.args:
                c = self.ev(e.args[0], st, eff, fr)
                o = self.ev(e.args[1], st, eff, fr) if len(e.args) > 1 else NONE
            else:
                c = ('class', fr.cls.qual) if fr.cls else NONE
                ps = fr.fi.params()
                o = st.env.get(ps[0], NONE) if ps else NONE
            if c[0] == 'class':
                dyn = self.vclass(o)
                if o[0] == 'class':
                    dynq = o[1]
                else:
                    dynq = dyn.qual if dyn else c[1]
                return ('super', c[1], dynq, o)
        f = self.ev(e.func, st, eff, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                parts = self.splat_parts(self.ev(a.value, st, eff, fr), st)
                for p in parts:
                    args.append(p[1] if p[0] == 'i' else ('star', p[1] if p[0] == 's' else ('list', (p,))))
            else:
                args.append(self.ev(a, st, eff, fr))
        kws = {}
        extra = 0
        for k in e.keywords:
            v = self.ev(k.value, st, eff, fr)
            if k.arg is None:
                c = st.cont.get(v) if v[0] == 'obj' else None
                if c is not None and c[0] == 'dict' and all(p[0] == 'kv' and is_const(p[1]) for p in c[1]):
                    for p in c[1]:
                        kws[p[1][1]] = p[2]
                else:
                    extra += 1
                    kws['**%d' % extra] = v
            else:
                kws[k.arg] = v
        return self.call_value(f, args, kws, st, eff, fr, e)

    def emit(self, v, st, eff, fr, node):
        eff.append(N('call', self.loc(node, fr) if node is not None else None, fr.fi, val=v,
                     facts=None))

    def call_value(self, f, args, kws, st, eff, fr, node):
        while f[0] == 'ite':
            c = self.simp(f[1], st)
            if c not in (TRUE, FALSE):
                break
            f = f[2] if c == TRUE else f[3]
        if f[0] == 'idx' and f[1][0] == 'obj' and f[1] in st.cont and st.cont[f[1]][0] == 'dict':
            # a small table of functions: the choice between them
            ps = st.cont[f[1]][1]
            if 2 <= len(ps) <= 4 and all(p[0] == 'kv' and p[2][0] in ('func', 'bound', 'lambda', 'class') for p in ps):
                v = ps[-1][2]
                for p in reversed(ps[:-1]):
                    v = mk_ite(mk_cmp('==', f[2], p[1]), p[2], v)
                return self.call_value(v, args, kws, st, eff, fr, node)
        if f[0] == 'ite' and f[2][0] in ('func', 'bound', 'lambda', 'class') or \
                f[0] == 'ite' and f[3][0] in ('func', 'bound', 'lambda', 'class'):
            te, ee = [], []
            s1, s2 = st.copy(), st.copy()
            a = self.call_value(f[2], args, kws, s1, te, fr, node)
            b = self.call_value(f[3], args, kws, s2, ee, fr, node)
            eff.append(N('if', self.loc(node, fr), fr.fi, cond=f[1], then=te, els=ee))
            j = self.join(f[1], s1, s2)
            st.env, st.heap, st.cont, st.facts = j.env, j.heap, j.cont, j.facts
            return mk_ite(f[1], a, b)
        if f[0] == 'func':
            fi = self.find_func(f[1])
            if fi is not None:
                return self.call_func(fi, args, kws, st, eff, fr, node)
        if f[0] == 'bound':
            fi = self.find_func(f[2])
            if fi is not None:
                return self.call_func(fi, args, kws, st, eff, fr, node, self_val=f[1])
        if f[0] == 'class':
            return self.instantiate(f[1], args, kws, st, eff, fr, node)
        if f[0] == 'lambda':
            return self.call_lambda(f[1], args, kws, st, eff, fr, node)
        if f[0] == 'builtin':
            return self.call_builtin(f[1], args, kws, st, eff, fr, node)
        if f[0] == 'ext':
            return self.call_ext(f[1], args, kws, st, eff, fr, node)
        if f[0] == 'attr':
            return self.call_method(f[1], f[2], args, kws, st, eff, fr, node)
        v = ('call', f, tuple(self.snap(a, st) for a in args), tuple(sorted((k, self.snap(x, st)) for k, x in kws.items())))
        self.emit(v, st, eff, fr, node)
        self.kill_facts(st, args)
        return v

    def find_func(self, qual):
        if not hasattr(self.prog, '_fq'):
            self.prog._fq = {f.qual: f for f in self.prog.funcs}
        return self.prog._fq.get(qual)

    def snap(self, v, st):
        """dereference container contents (for recording in events)"""
        return deref(v, st)

    def call_lambda(self, lid, args, kws, st, eff, fr, node):
        e, cst, cfr = self.lambdas[lid]
        if isinstance(e, ast.Lambda):
            a = e.args
            ps = [x.arg for x in a.args]
            saved = dict(st.env)
            env = dict(cst.env)
            dfl = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
            for i, p in enumerate(ps):
                if i < len(args):
                    env[p] = args[i]
                elif p in kws:
                    env[p] = kws[p]
                elif p in dfl:
                    env[p] = self.ev(dfl[p], cst, eff, cfr)
            st.env = env
            fr2 = Frame(cfr.fi, cfr.mod, cfr.cls, cfr.closure, fr.depth + 1)
            v = self.ev(e.body, st, eff, fr2)
            st.env = saved
            return v
        fi = e
        if ('lam', lid) in self.stack or fr.depth > self.MAXDEPTH:
            v = ('call', ('lambda', lid), tuple(args), ())
            self.emit(v, st, eff, fr, node)
            return v
        self.stack.append(('lam', lid))
        r = self.inline(fi, self.bind(fi, args, kws, st, eff, Frame(fi, cfr.mod, cfr.cls), None), st, eff, fr, node,
                        closure=dict(cst.env, **(cfr.closure or {})) if cfr.closure else cst.env, cls=cfr.cls)
        self.stack.pop()
        return r

    def bind(self, fi, args, kws, st, eff, dfr, self_val):
        a = fi.node.args
        ps = fi.params()
        env = {}
        args = list(args)
        if fi.cls is not None and not fi.is_static and self_val is not None:
            args = [self_val] + args
        rest = []
        star = [x for x in args if x[0] == 'star']
        if star:
            args2 = []
            for x in args:
                if x[0] == 'star':
                    break
                args2.append(x)
            n = len(args2)
            k = 0
            for p in ps[n:]:
                if p in kws:
                    continue
                args2.append(('idx', star[0][1], C(k)))
                k += 1
            args = args2
        for i, v in enumerate(args):
            if i < len(ps):
                env[ps[i]] = v
            else:
                rest.append(v)
        kw = {}
        for k, v in kws.items():
            if k in ps or k in fi.kwonly():
                env[k] = v
            else:
                kw[k] = v
        for p, e in fi.defaults().items():
            if p not in env:
                env[p] = self.ev(e, State(), [], Frame(fi, fi.mod, fi.cls))
                if env[p][0] == 'obj':
                    env[p] = ('defobj', fi.qual, p)
        for p in ps + fi.kwonly():
            env.setdefault(p, ('missing', p))
        for k, v in kws.items():
            c = None
            if k.startswith('**'):
                c = st.cont.get(v) if v[0] == 'obj' else v if v[0] == 'dict' else None
            if c is not None and c[0] == 'dict' and all(x[0] == 'kv' for x in c[1]):
                # f(**{name: value}) with a chosen name
                for p in ps + fi.kwonly():
                    if p not in kws and (p in fi.defaults() or env[p][0] == 'missing'):
                        for x in c[1]:
                            env[p] = mk_ite(key_is(x[1], p), x[2], env[p])
        if a.vararg:
            env[a.vararg.arg] = ('tuple',) + tuple(rest)
        if a.kwarg:
            o = ('obj', self.fresh())
            self.obj_kind[o] = 'dict'
            st.cont[o] = ('dict', tuple(('kv', C(k), v) if not k.startswith('**') else ('s', v) for k, v in sorted(kw.items())))
            env[a.kwarg.arg] = o
        return env

    def call_func(self, fi, args, kws, st, eff, fr, node, self_val=None):
        # dynamic dispatch on the receiver's class
        if any(d in ('nephosem.utils.lazy',) for d in fi.decorators):
            pass
        if self.opaque(fi) or fi.qual in self.stack or fr.depth > self.MAXDEPTH or is_generator(fi):
            env = self.bind(fi, [self.snap(a, st) for a in args], {k: self.snap(v, st) for k, v in kws.items()}, st, eff, fr, self_val)
            ps = fi.params() + fi.kwonly()
            extra = [k for k in env if k not in ps]
            v = ('rcall', fi.qual, tuple((p, deref(env[p], st)) for p in ps + sorted(extra)))
            self.emit(v, st, eff, fr, node)
            self.kill_facts(st, ([self_val] if self_val else []) + list(args) + list(kws.values()))
            if self_val is not None:
                for k in [k for k in st.heap if k[0] == self_val]:
                    del st.heap[k]
            for x in list(args) + list(kws.values()):
                self.havoc_reach(x, st)
            return v
        env = self.bind(fi, args, kws, st, eff, fr, self_val)
        self.stack.append(fi.qual)
        self.visited_funcs.add(fi.qual)
        r = self.inline(fi, env, st, eff, fr, node, cls=fi.cls)
        self.stack.pop()
        return r

    def inline(self, fi, env, st, eff, fr, node, closure=None, cls=None):
        saved = st.env
        st.env = env
        fr2 = Frame(fi, fi.mod, cls, closure, fr.depth + 1)
        be = []
        f = self.block(fi.node.body, st, be, fr2)
        loc = self.loc(node, fr) if node is not None else None
        eff.append(N('inl', loc, fr.fi, callee=fi.qual, body=be))
        ret, nx = f.get('ret'), f.get('next')
        if ret and nx:
            v = mk_ite(ret[0], ret[2], NONE)
            s2 = self.join(ret[0], ret[1], nx[1])
        elif ret:
            v, s2 = ret[2], ret[1]
        elif nx:
            v, s2 = NONE, nx[1]
        else:
            v, s2 = ('noreturn',), st
        st.heap, st.cont, st.facts = s2.heap, s2.cont, s2.facts
        st.env = saved
        return v

    def instantiate(self, qual, args, kws, st, eff, fr, node):
        ci = self.prog.cls(qual)
        init = ci.find('__init__')
        if qual in self.inline_classes and init is not None:
            o = ('obj', self.fresh())
            self.obj_class[o] = ci
            self.call_func(init, args, kws, st, eff, fr, node, self_val=o)
            return o
        o = ('obj', self.fresh())
        if init is not None:
            env = self.bind(init, [self.snap(a, st) for a in args], {k: self.snap(v, st) for k, v in kws.items()}, st, eff, fr, ('selfnew',))
            ps = init.params()[1:] + init.kwonly()
            extra = sorted(k for k in env if k not in ps and k != init.params()[0])
            v = ('new', ci.qual, tuple((p, deref(env[p], st)) for p in ps + extra if env.get(p, NONE)[0] != 'missing'))
        else:
            v = ('new', ci.qual, tuple(('%d' % i, self.snap(a, st)) for i, a in enumerate(args)) +
                 tuple(sorted((k, self.snap(x, st)) for k, x in kws.items())))
        self.emit(v, st, eff, fr, node)
        return v

    def call_builtin(self, n, args, kws, st, eff, fr, node):
        if n == 'len' and len(args) == 1:
            a = args[0]
            b = self.strip_iter(a, st)
            if b[0] == 'obj' and b in st.cont:
                c = st.cont[b]
                if c[0] in ('list',) and all(p[0] == 'i' for p in c[1]):
                    return C(len(c[1]))
                return ('len', sized(deref(b, st)))
            if b[0] == 'tuple':
                return C(len(b) - 1)
            if b[0] == 'const' and isinstance(b[1], (str, tuple)):
                return C(len(b[1]))
            cls = self.vclass(b)
            if cls is not None:
                f = cls.find('__len__')
                if f is not None and not self.opaque(f):
                    return self.call_func(f, [], {}, st, eff, fr, node, self_val=b)
            if b[0] == 'range' and b[1] == C(0) and b[3] == C(1):
                return b[2]
            return ('len', sized(b))
        if n in ('max', 'min') and len(args) == 2 and not kws and not any(is_const(x) or x[0] == 'star' for x in args):
            return ('call', n, tuple(sorted(args, key=repr)), ())
        if n == 'range':
            a = list(args)
            if len(a) == 1:
                return ('range', C(0), a[0], C(1))
            if len(a) == 2:
                return ('range', a[0], a[1], C(1))
            if len(a) == 3:
                return ('range',) + tuple(a)
        if n == 'map' and len(args) == 2 and not kws:
            # the list of f(x), made element by element
            loc = dict(lineno=getattr(node, 'lineno', 0), col_offset=0)
            nf_, ni = '.f%d' % self.fresh(), '.x%d' % self.fresh()
            st.env[nf_], st.env[ni] = args[0], args[1]
            y = '.y%d' % self.fresh()
            e = ast.ListComp(elt=ast.Call(func=ast.Name(nf_, ast.Load(), **loc), args=[ast.Name(y, ast.Load(), **loc)], keywords=[], **loc),
                             generators=[ast.comprehension(target=ast.Name(y, ast.Store(), **loc),
                                                           iter=ast.Name(ni, ast.Load(), **loc), ifs=[], is_async=0)], **loc)
            r = self.comp(e, 'list', st, eff, fr)
            st.env.pop(nf_, None)
            st.env.pop(ni, None)
            return r
        if n in ('list', 'tuple', 'set', 'dict', 'frozenset'):
            k = {'frozenset': 'set', 'tuple': 'list'}.get(n, n)
            if not args and not kws:
                return self.newobj(k, (k, ()), st) if n != 'tuple' else ('tuple',)
            if n == 'dict':
                if kws and not args and not any(x.startswith('**') for x in kws):
                    return self.newobj('dict', ('dict', tuple(('kv', C(a), b) for a, b in kws.items())), st)
                if args:
                    a = args[0]
                    if a[0] == 'obj' and a in st.cont and st.cont[a][0] == 'dict':
                        return self.newobj('dict', st.cont[a], st)
                    if a[0] == 'call' and a[1] == 'zip':
                        return ('call', 'dict', (a,), ())
                    if not kws and a[0] in ('sym', 'attr', 'idx', 'elem', 'rcall'):
                        return self.newobj('dict', ('dict', (('s', a),)), st)
                return ('call', 'dict', tuple(deref(x, st) for x in args), tuple(sorted((kk, deref(x, st)) for kk, x in kws.items())))
            a = args[0]
            if a[0] == 'obj' and a in st.cont and st.cont[a][0] in ('list', 'set'):
                if n == 'set' and st.cont[a][0] == 'list' or n == 'set':
                    return self.newobj('set', ('set', st.cont[a][1]), st)
                if n in ('list', 'tuple') and st.cont[a][0] == 'list':
                    return self.newobj('list', st.cont[a], st)
            if n in ('list', 'tuple') and a[0] == 'tuple':
                return a if n == 'tuple' else self.newobj('list', ('list', tuple(('i', x) for x in a[1:])), st)
            if n in ('list', 'tuple', 'set') and a[0] == 'call' and a[1] in ('map', 'zip', 'enumerate'):
                # materialise through a loop
                loc = dict(lineno=getattr(node, 'lineno', 0), col_offset=0)
                nm = '.x%d' % self.fresh()
                st.env[nm] = a
                e = ast.ListComp(elt=ast.Name('.y', ast.Load(), **loc),
                                 generators=[ast.comprehension(target=ast.Name('.y', ast.Store(), **loc),
                                                               iter=ast.Name(nm, ast.Load(), **loc), ifs=[], is_async=0)], **loc)
                r = self.comp(e, 'set' if n == 'set' else 'list', st, eff, fr)
                st.env.pop(nm, None)
                return r
            return ('call', n, (deref(a, st),), ())
        if n == 'isinstance' and len(args) == 2:
            v, t = args
            ts = t[1:] if t[0] == 'tuple' else (t,)
            fs = []
            for x in ts:
                r = self.isinst(v, x, st)
                fs.append(r if r is not None else ('isinstance', v, x))
            return mk_or(*fs)
        if n == 'print':
            v = ('call', 'print', tuple(deref(a, st) for a in args), ())
            self.emit(v, st, eff, fr, node)
            return NONE
        if n == 'getattr' and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][1], str):
            v = self.getattr(args[0], args[1][1], st, eff, fr, node)
            if len(args) == 3 and self.vclass(args[0]) is None and v == ('attr', args[0], args[1][1]):
                return mk_ite(('truthy', ('call', 'hasattr', (args[0], args[1]), ())), v, args[2])
            return v
        if n == 'setattr' and len(args) == 3 and is_const(args[1]):
            self.setattr(args[0], args[1][1], args[2], st, eff, fr, node)
            return NONE
        if n in ('float', 'int', 'str', 'bool') and len(args) == 1 and is_const(args[0]):
            try:
                return C({'float': float, 'int': int, 'str': str, 'bool': bool}[n](args[0][1]))
            except Exception:
                pass
        if n == 'str' and len(args) == 1:
            cls = self.vclass(args[0])
            if cls is not None:
                f = cls.find('__str__')
                if f is not None and not self.opaque(f):
                    return self.call_func(f, [], {}, st, eff, fr, node, self_val=args[0])
        if n == 'bool' and len(args) == 1:
            return self.truthv(args[0], st)
        if n == 'sum' and len(args) == 1:
            return ('call', 'sum', (deref(args[0], st),), ())
        if n == 'type' and len(args) == 1:
            cls = self.vclass(args[0])
            return ('classof', args[0])
        v = ('call', n, tuple(deref(a, st) for a in args), tuple(sorted((k, deref(x, st)) for k, x in kws.items())))
        if n == 'sorted':
            v = plain_sorted(v, self.lambdas)
        if n not in PURE_BUILTINS:
            self.emit(v, st, eff, fr, node)
        return v

    def isinst(self, v, t, st):
        if t == ('builtin', 'str'):
            if is_const(v):
                return C(isinstance(v[1], str))
        if v[0] == 'obj' and v in st.cont:
            k = self.obj_kind.get(v)
            if t[0] == 'builtin':
                return C(t[1] == k)
        if t[0] == 'class':
            cls = self.vclass(v)
            if cls is not None:
                try:
                    return TRUE if cls.is_sub(self.prog.cls(t[1])) else None
                except AnalysisBroken:
                    return None
        return None

    def call_ext(self, name, args, kws, st, eff, fr, node):
        if name in PROGRESS and args:
            return args[0]
        if name in TRANGE:
            return self.call_builtin('range', args, {}, st, eff, fr, node)
        if name in EXT_ITER_ALIAS and len(args) == 1:
            return self.call_method(args[0], EXT_ITER_ALIAS[name], [], {}, st, eff, fr, node)
        if name in ('collections.defaultdict', 'collections.OrderedDict', 'collections.Counter') and \
                (name.endswith('defaultdict') and len(args) == 1 or not args):
            o = self.newobj('dict', ('dict', ()), st)
            if args:
                st.heap[(o, '.default')] = args[0]
            return o
        if name == 'collections.deque' and not args:
            return self.newobj('list', ('list', ()), st)
        v = ('call', name, tuple(deref(a, st) for a in args), tuple(sorted((k, deref(x, st)) for k, x in kws.items())))
        if name in FRESH_EXT:
            v = v + (('site', self.fresh()),)
        self.emit(v, st, eff, fr, node)
        self.kill_facts(st, args)
        return v

    MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'update', 'setdefault', 'sort', 'reverse',
                'discard', 'popitem', 'popleft', 'appendleft', 'difference_update', 'intersection_update', 'put'}

    def call_method(self, b, name, args, kws, st, eff, fr, node):
        if b[0] == 'ite' and b[2][0] in ('obj', 'new') and b[3][0] in ('obj', 'new'):
            te, ee = [], []
            s1, s2 = st.copy(), st.copy()
            f1 = self.getattr(b[2], name, s1, te, fr, node)
            f2 = self.getattr(b[3], name, s2, ee, fr, node)
            x = self.call_value(f1, args, kws, s1, te, fr, node)
            y = self.call_value(f2, args, kws, s2, ee, fr, node)
            if te or ee:
                eff.append(N('if', self.loc(node, fr), fr.fi, cond=b[1], then=te, els=ee))
            j = self.join(b[1], s1, s2)
            st.env, st.heap, st.cont, st.facts = j.env, j.heap, j.cont, j.facts
            return mk_ite(b[1], x, y)
        if name == 'extend' and len(args) == 1 and not kws and self.listy(args[0], st):
            c = st.cont[args[0]] if args[0][0] == 'obj' else args[0]
            if c[1] and all(p[0] == 'i' for p in c[1]):
                for p in c[1]:
                    self.call_method(b, 'append', [p[1]], {}, st, eff, fr, node)
                return NONE
        if b[0] == 'obj' and b in st.cont:
            c = st.cont[b]
            if name in self.MUTATORS:
                eff.append(N('mut', self.loc(node, fr) if node is not None else None, fr.fi, target=b, name=name, args=tuple(args)))
            if c[0] == 'list':
                if name == 'append' and len(args) == 1:
                    st.cont[b] = ('list', c[1] + (('i', args[0]),))
                    return NONE
                if name == 'extend' and len(args) == 1:
                    st.cont[b] = ('list', c[1] + self.splat_parts(args[0], st))
                    return NONE
                if name == 'copy':
                    return self.newobj('list', c, st)
                if name == 'clear':
                    st.cont[b] = ('list', ())
                    return NONE
            if c[0] == 'set':
                if name == 'add':
                    st.cont[b] = ('set', c[1] + (('i', args[0]),))
                    return NONE
                if name == 'update':
                    for a in args:
                        st.cont[b] = ('set', st.cont[b][1] + self.splat_parts(a, st))
                    return NONE
                if name == 'union':
                    parts = c[1]
                    for a in args:
                        parts += self.splat_parts(a, st)
                    return self.newobj('set', ('set', parts), st)
                if name == 'copy':
                    return self.newobj('set', c, st)
            if c[0] == 'dict':
                if name == 'update' and len(args) <= 1:
                    parts = c[1]
                    if args:
                        a = args[0]
                        if a[0] == 'obj' and a in st.cont and st.cont[a][0] == 'dict':
                            parts += st.cont[a][1]
                        else:
                            parts += (('s', a),)
                    parts += tuple(('kv', C(k), v) for k, v in kws.items() if not k.startswith('**'))
                    st.cont[b] = ('dict', parts)
                    return NONE
                if name == 'get' and args:
                    k = args[0]
                    d = args[1] if len(args) > 1 else NONE
                    if all(p[0] == 'kv' and p[2][0] in ('func', 'class', 'ext', 'lambda', 'bound') for p in c[1]) and len(c[1]) > 1:
                        return mk_ite(self.contains_f(k, b, st), ('idx', b, k), d)
                    if all(p[0] == 'kv' for p in c[1]):
                        r = d
                        for p in c[1]:
                            f = mk_cmp('==', k, p[1])
                            r = mk_ite(f, p[2], r)
                        return r
                    return mk_ite(('in', k, b), ('idx', b, k), d)
                if name == 'copy':
                    return self.newobj('dict', c, st)
                if name == 'keys':
                    return b
                if name in ('items', 'values'):
                    if all(p[0] == 'kv' for p in c[1]):
                        ps = tuple(('i', ('tuple', p[1], p[2]) if name == 'items' else p[2]) for p in c[1])
                        return self.newobj('list', ('list', ps), st)
                    return ('mcall', b, name, (), ())
                if name == 'setdefault' and args:
                    k = args[0]
                    d = args[1] if len(args) > 1 else NONE
                    st.cont[b] = ('dict', c[1] + (('kvdef', k, d),))
                    return ('idx', b, k)
                if name == 'pop' and args and is_const(args[0]) and all(p[0] == 'kv' and is_const(p[1]) for p in c[1]):
                    r = args[1] if len(args) > 1 else NONE
                    for p in c[1]:
                        if p[1] == args[0]:
                            r = p[2]
                    st.cont[b] = ('dict', tuple(p for p in c[1] if p[1] != args[0]))
                    return r
            if name in self.MUTATORS:
                st.cont[b] = ('unkc',)
            v = ('mcall', b, name, tuple(deref(a, st) for a in args), tuple(sorted((k, deref(x, st)) for k, x in kws.items())))
            return v
        if name in ('items', 'keys', 'values') and not args:
            if name == 'keys':
                cls = self.vclass(b)
                if cls is None:
                    return ('mcall', b, 'keys', (), ())
            return ('mcall', b, name, (), ())
        if name == 'get' and args and not kws and len(args) <= 2 and self.vclass(b) is None and (
                b[0] in ('attr', 'sym', 'idx', 'mcall') or b[0] == 'call' and b[1] in ('copy.deepcopy', 'copy.copy') and len(b[2]) == 1):
            if not (b[0] == 'sym' and b[1].endswith('queue')):
                # dict-like get; keep as canonical gated lookup only for constant keys
                if is_const(args[0]) and isinstance(args[0][1], str):
                    d = args[1] if len(args) > 1 else NONE
                    return mk_ite(('in', args[0], self.strip_iter(b, st)), ('idx', b, args[0]), d)
        if is_const(b) and isinstance(b[1], str):
            if all(is_const(a) for a in args) and name in ('split', 'strip', 'lower', 'upper', 'replace', 'rsplit', 'startswith', 'endswith'):
                try:
                    r = getattr(b[1], name)(*[a[1] for a in args])
                    if isinstance(r, list):
                        return self.newobj('list', ('list', tuple(('i', C(x)) for x in r)), st)
                    return C(r)
                except Exception:
                    pass
            if name == 'format':
                return self.strformat(b[1], args, kws, st)
            if name == 'join' and len(args) == 1:
                return ('join', b, deref(args[0], st))
        v = ('mcall', b, name, tuple(deref(a, st) for a in args), tuple(sorted((k, deref(x, st)) for k, x in kws.items())))
        if name in self.MUTATORS:
            r = self.root_obj(b, st)
            if r is not None and r != b:
                c = st.cont[r]
                if b[0] == 'idx' and b[1] == r and c[0] == 'dict':
                    st.cont[r] = ('dict', c[1] + (('kvcall', b[2], name, tuple(deref(a, st) for a in args)),))
                else:
                    st.cont[r] = ('unkc',)
        if (name == 'get' and not args) or name in ('pop', 'popleft', 'popitem', 'get_nowait', 'recv', 'readline', 'poll', 'qsize', 'Queue', 'JoinableQueue', 'SimpleQueue', 'Pool', 'Lock', 'RLock', 'Value', 'Process'):
            v = v + (('site', self.fresh()),)    # each execution may give a different value
        self.emit(v, st, eff, fr, node)
        if name in self.MUTATORS or name not in ('get', 'copy', 'strip', 'split', 'items', 'keys', 'values', 'join', 'index', 'count',
                                                 'group', 'lower', 'upper', 'startswith', 'endswith', 'format', 'sum', 'toarray',
                                                 'tocsr', 'tocoo', 'transpose', 'dot', 'astype'):
            self.kill_facts(st, [b])
        return v

    def strformat(self, s, args, kws, st):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if spec and '{' in spec:
                    parts.append(('unk', 'fmt', self.fresh()))
                    if field == '':
                        auto += 1
                elif field == '':
                    parts.append(fspec(args[auto], spec, conv))
                    auto += 1
                elif field.isdigit():
                    parts.append(fspec(args[int(field)], spec, conv))
                elif field in kws:
                    parts.append(fspec(kws[field], spec, conv))
                else:
                    parts.append(('unk', 'fmt', self.fresh()))
        except Exception:
            return ('unk', 'fmt', self.fresh())
        return ('fmt',) + tuple(deref(p, st) for p in parts)


def list_attributes(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('index', 'append', 'extend', 'insert', 'sort') \
                and isinstance(n.func.value, ast.Attribute):
            out.add(n.func.value.attr)
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.ListComp)):
            out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ('list', 'sorted'):
            out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    return out


def fspec(x, spec, conv):
    """a formatted value: plain insertion, or with a format that changes the text"""
    if conv in ('r', 'a'):
        x = ('call', 'repr' if conv == 'r' else 'ascii', (x,), ())
    if spec in ('', 's', 'd', None):
        return x
    return ('call', 'format', (x, C(spec) if isinstance(spec, str) else spec), ())


class CompLeaf(ast.stmt):
    """synthetic statement: add the element of a comprehension to its container"""
    _fields = ()

    def __init__(self, e, kind, tmp, lineno, col_offset):
        super().__init__()
        self.e, self.kind, self.tmp = e, kind, tmp
        self.lineno, self.col_offset = lineno, col_offset


_orig_stmt = Interp.stmt


def _stmt(self, s, st, eff, fr):
    if isinstance(s, CompLeaf):
        o = st.env[s.tmp]
        if s.kind == 'dict':
            k = self.ev(s.e.key, st, eff, fr)
            v = self.ev(s.e.value, st, eff, fr)
            part = ('kv', k, v)
        else:
            part = ('i', self.ev(s.e.elt, st, eff, fr))
        c = st.cont.get(o, (s.kind, ()))
        if c[0] != 'unkc':
            st.cont[o] = (c[0], c[1] + (part,))
        return self.nxt(st)
    return _orig_stmt(self, s, st, eff, fr)


Interp.stmt = _stmt

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}


class Result:
    pass


def is_generator(fi):
    if not hasattr(fi, '_gen'):
        g = False
        todo = list(fi.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                g = True
                break
            todo.extend(ast.iter_child_nodes(n))
        fi._gen = g
    return fi._gen


def deref(v, st, seen=()):
    """replace container object ids by their current contents"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'obj' and len(v) == 2:
        if v in st.cont and v not in seen:
            c = st.cont[v]
            if c[0] == 'unkc':
                return v
            return deref(c, st, seen + (v,))
        return v
    return tuple(deref(x, st, seen) if isinstance(x, tuple) else x for x in v)


# ---------------------------------------------------------------- tree walking
def walk(effs, guards=(), loops=()):
    """yield (node, guards, loops) for every node; guards: tuple of formulas known on the way (structural)"""
    for n in effs:
        yield n, guards, loops
        if n.k == 'if':
            yield from walk(n.then, guards + (n.cond,), loops)
            yield from walk(n.els, guards + (mk_not(n.cond),), loops)
        elif n.k in ('loop', 'while'):
            g = guards + ((n.cond,) if n.k == 'while' else ())
            yield from walk(n.condeff, guards, loops + (n,))
            yield from walk(n.body, g, loops + (n,))
        elif n.k in ('inl', 'iter'):
            yield from walk(n.body, guards, loops)
        elif n.k == 'try':
            yield from walk(n.body, guards, loops)
            for names, he, loc in n.handlers:
                yield from walk(he, guards + (('exc', n.id),), loops)
            yield from walk(n.final, guards, loops)


def dump(effs, ind=0, out=None):
    out = [] if out is None else out
    p = '  ' * ind
    for n in effs:
        if n.k == 'if':
            out.append('%sif %s:   # %s' % (p, show(n.cond), n.loc))
            dump(n.then, ind + 1, out)
            if n.els:
                out.append('%selse:' % p)
                dump(n.els, ind + 1, out)
        elif n.k == 'loop':
            out.append('%sfor %s in %s:   # %s' % (p, n.lid[1], show(n.iter), n.loc))
            dump(n.body, ind + 1, out)
        elif n.k == 'while':
            out.append('%swhile %s:   # %s' % (p, show(n.cond), n.loc))
            dump(n.body, ind + 1, out)
        elif n.k == 'inl':
            out.append('%s{inlined %s' % (p, n.callee))
            dump(n.body, ind + 1, out)
            out.append('%s}' % p)
        elif n.k == 'iter':
            out.append('%s{iter %s' % (p, show(n.val)))
            dump(n.body, ind + 1, out)
            out.append('%s}' % p)
        elif n.k == 'try':
            out.append('%stry:' % p)
            dump(n.body, ind + 1, out)
            for names, he, loc in n.handlers:
                out.append('%sexcept %s:' % (p, names))
                dump(he, ind + 1, out)
            if n.final:
                out.append('%sfinally:' % p)
                dump(n.final, ind + 1, out)
        else:
            d = []
            for k, v in n.a.items():
                if v is None:
                    continue
                d.append('%s=%s' % (k, show(v) if isinstance(v, tuple) else v))
            out.append('%s%s %s   # %s' % (p, n.k, ' '.join(d), n.loc))
    return out
