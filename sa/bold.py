"""Second opinion for a single replaced expression or statement.

When everything else in the function is the same text and only one region was replaced, a pair of
terms the term algebra cannot relate is still judged different if

 - one of them depends on an input (parameter, attribute path, setting) the other does not
   depend on at all, and the other depends on nothing new;
 - they apply different functions or methods (not known synonyms) to equal arguments;
 - one is a function of the other (a conversion was dropped or added), not an identity-like one;
 - a keyword was dropped or added with a value that matters;
 - an element of a literal container or a filter was dropped or added.
"""
import ast
import math

from .nf import NONE, C, FALSE, TRUE, is_const, is_bool, subterms, contains_any

OPAQUE = {'unk', 'unkc', 'looped', 'inloop', 'missing', 'unbound', 'deleted', 'brk', 'acc', 'excval', 'lam'}

SYN = [
    {'float', 'numpy.float64', 'numpy.double', 'numpy.float_'}, {'int', 'numpy.int64', 'numpy.int_', 'numpy.int32'}, {'str', 'numpy.str_', 'object'},
    {'list', 'tuple', 'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'iter', 'set', 'frozenset', 'sorted', 'dict',
     'collections.OrderedDict', 'collections.defaultdict', 'collections.Counter', 'copy.copy', 'range', 'enumerate', 'zip', 'reversed',
     'numpy.arange', 'numpy.copy', 'numpy.squeeze', 'numpy.ravel', 'map', 'filter', 'itertools.chain', 'collections.deque', 'next',
     'numpy.fromiter', 'numpy.concatenate', 'numpy.hstack', 'numpy.append', 'itertools.chain.from_iterable', 'sum', 'numpy.sum', 'max',
     'numpy.max', 'min', 'numpy.min', 'numpy.amax', 'numpy.amin'},
    {'open', 'codecs.open', 'io.open'},
    {'os.path.normpath', 'os.path.abspath', 'os.path.realpath', 'os.fspath', 'str', 'os.path.expanduser'},
    {'len', 'numpy.size', 'numpy.shape', 'operator.length_hint', 'bool', 'any'},
    {'isinstance', 'issubclass', 'hasattr', 'callable', 'type'},
    {'os.makedirs', 'os.mkdir'}, {'os.remove', 'os.unlink'},
    {'numpy.zeros', 'numpy.full'}, {'numpy.ones', 'numpy.full'},
    {'numpy.where', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere'},
    {'getattr', 'vars', 'operator.attrgetter'},
    {'str', 'repr', 'format'}, {'int', 'float', 'round', 'bool'},
    {'numpy.multiply', 'numpy.dot', 'numpy.matmul'},
    {'numpy.log', 'math.log'}, {'numpy.sqrt', 'math.sqrt'}, {'numpy.abs', 'abs', 'numpy.absolute', 'math.fabs', 'numpy.fabs'},
    {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob'},
    {'scipy.sparse.csr_matrix', 'scipy.sparse.csr_array'},
    {'os.path.exists', 'os.path.lexists'},
    {'multiprocessing.cpu_count', 'os.cpu_count'},
    {'callable', 'hasattr'},
]
MSYN = [
    {'keys', '__iter__', 'copy', 'items', 'iterkeys'}, {'values', 'itervalues'},
    {'tocsr', 'tocsc', 'tocoo', 'tolil', 'todok', 'asformat', 'copy', 'asfptype'},
    {'toarray', 'todense', 'A', 'A1'}, {'ravel', 'flatten', 'reshape', 'squeeze'}, {'T', 'transpose'},
    {'get', '__getitem__', 'setdefault'}, {'contains', '__contains__', 'has_key', 'count', 'index', 'find', 'startswith'},
    {'union', '__or__', 'update', 'extend', 'add', 'append', 'appendleft', 'insert', '__setitem__'},
    {'remove', 'discard', 'pop', 'popitem', 'popleft', '__delitem__', 'clear'},
    {'nonzero', 'getnnz', 'count_nonzero'}, {'dot', 'multiply', '__mul__', '__matmul__', 'matmul'},
    {'node', 'nodes', 'neighbors', 'successors', 'adj'}, {'edges', 'out_edges'}, {'split', 'rsplit', 'partition', 'rpartition'},
    {'readlines', '__iter__', 'readline', 'read', 'splitlines'}, {'get_item_list', 'keys', 'items'}, {'strip', 'rstrip'},
    {'match', 'fullmatch'}, {'getrow', 'getcol', '__getitem__'}, {'group', '__getitem__', 'groups'}, {'put', 'put_nowait'},
    {'get', 'get_nowait'}, {'iterrows', 'itertuples'}, {'as_matrix', 'to_numpy', 'values'}, {'sum', 'mean'},
]
IDENT = {'list', 'tuple', 'str', 'int', 'float', 'iter', 'dict', 'bool', 'set', 'frozenset', 'numpy.array', 'numpy.asarray', 'os.path.normpath',
         'os.path.abspath', 'os.fspath', 'copy.copy', 'collections.OrderedDict', 'numpy.squeeze', 'scipy.sparse.csr_matrix', 'numpy.ravel',
         'range', 'enumerate', 'zip', 'map', 'filter', 'next', 'open', 'codecs.open', 'type', 'super', 'os.path.expanduser', 'os.path.join',
         'repr', 'isinstance', 'getattr', 'numpy.int64', 'sorted', 'reversed', 'sum', 'max', 'min', 'functools.partial', 'numpy.matrix',
         'pandas.DataFrame', 'numpy.copy', 'numpy.atleast_1d', 'numpy.atleast_2d', 'contextlib.closing', 'itertools.chain',
         'itertools.chain.from_iterable', 'collections.Counter', 'collections.defaultdict'}
MIDENT = {'copy', 'keys', 'tocsr', 'tocsc', 'tocoo', 'tolil', 'toarray', 'asfptype', 'ravel', 'flatten', 'squeeze', '__iter__', 'readlines',
          'rstrip', 'strip', 'format', 'items', 'encode', 'decode', 'tolist', 'todense', 'todok', 'asformat', 'iter', 'nodes', 'edges', 'reshape',
          'view', 'astype', 'groups', '__enter__', 'get_matrix', 'close', 'join', 'values'}
BENIGN_KW = {'copy', 'mode', 'dtype', 'encoding', 'errors', 'order', 'axis', 'exist_ok', 'desc', 'unit', 'file', 'flush', 'daemon', 'name',
             'ignore_index', 'inplace', 'newline', 'protocol', 'format'}


def root(t):
    while t[0] == 'attr':
        t = t[1]
    return t


def leaves(t):
    """-> ({leaf path}, opaque?)"""
    out = set()
    opaque = [False]
    seen = set()

    def go(v):
        if not isinstance(v, tuple) or not v or id(v) in seen:
            return
        seen.add(id(v))
        h = v[0]
        if isinstance(h, str):
            if h in OPAQUE or h == 'obj' and len(v) == 2:
                opaque[0] = True
                return
            if h == 'attr':
                path = []
                w = v
                while w[0] == 'attr':
                    path.append(w[2])
                    w = w[1]
                if w[0] in ('sym', 'elem', 'lv', 'lamarg', 'global', 'lout', 'pos'):
                    out.add((leafkey(w),) + tuple(reversed(path)))
                    if w[0] in ('elem', 'lout'):
                        go(w)
                    return
                go(w)
                return
            if h in ('sym', 'lv', 'lamarg', 'global'):
                out.add((leafkey(v),))
                return
            if h in ('elem', 'pos'):
                go(v[1])
                return
        for x in v:
            if isinstance(x, tuple):
                go(x)
    go(t)
    return out, opaque[0]


def leafkey(w):
    if w[0] == 'elem' or w[0] == 'pos':
        return ('elem',)
    if w[0] == 'lout':
        return ('lout',)
    return w


def covered(p, others):
    for o in others:
        n = min(len(p), len(o))
        if p[:n] == o[:n]:
            return True
    return False


def synonyms(x, y, table):
    return any(x in s and y in s for s in table)


def derived(prog):
    """property name -> names of the attributes its value is computed from"""
    out = getattr(prog, '_derived', None)
    if out is None:
        out = {}
        for f in prog.funcs:
            if f.is_property and f.params():
                me = f.params()[0]
                ns = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me}
                out.setdefault(f.name, set()).update(ns - {f.name})
        for _ in range(4):
            for k, v in out.items():
                for x in list(v):
                    v |= out.get(x, set()) - {k}
        prog._derived = out
    return out


def kindred(c, x, y):
    """is one attribute a property computed from the other, or are both computed from the same?"""
    d = derived(c.refprog)
    return bool(({x} | d.get(x, set())) & ({y} | d.get(y, set())))


def parts(t):
    return t[1:] if t[0] == 'zip' else t[2] if t[0] == 'call' and t[1] == 'zip' else ()


def reformed(c, a, b):
    """forms of the same thing: a sequence and the sequence side by side with others, an element and its place, a table of
    alternatives looked up by a value and the alternatives"""
    for x, y in ((a, b), (b, a)):
        if any(p == y or c.same(p, y) for p in parts(x)):
            return True
        if x[0] == 'elem' and y[0] == 'idx' and y[2][0] in ('pos', 'elem') and (y[1] == x[1] or y[1] in parts(x[1])):
            return True
        if contains_any(x, lambda t: t[0] == 'idx' and t[1][0] == 'dict' and t[2][0] != 'const'
                        or t[0] == 'call' and t[1] == 'getattr' and len(t[2]) > 1 and t[2][1][0] != 'const'):
            return True
    return False


def bolder(c, a, b):
    """c: the comparison; a, b: terms it could not relate.  True if they are judged different"""
    if reformed(c, a, b):
        return False
    ra = _shape(c, a, b)
    if ra is not None:
        return ra
    la, oa = leaves(a)
    lb, ob = leaves(b)
    if oa or ob:
        return False
    lost = [p for p in la if not covered(p, lb)]
    gained = [p for p in lb if not covered(p, la)]
    if any(kindred(c, p[-1], o[-1]) for p in lost + gained if len(p) > 1 for o in (lb if p in lost else la) if len(o) > 1):
        return False
    if c.filled and bool(lost) != bool(gained) and contains_any(b if lost else a, lambda t: t[0] == 'sym' and t[1] in c.filled):
        return False            # may have been put into that container before
    if bool(lost) != bool(gained):
        # `x.attr` against something over x only is not a lost input unless the root is gone as well
        return True
    return exchanged(lost, gained)


ARITH = {'int': int, 'float': float, 'abs': abs, 'round': round, 'math.sqrt': math.sqrt, 'numpy.sqrt': math.sqrt, 'math.log': math.log,
         'numpy.log': math.log, 'math.log2': math.log2, 'numpy.log2': math.log2, 'math.log10': math.log10, 'numpy.log10': math.log10,
         'math.floor': math.floor, 'math.ceil': math.ceil, 'max': max, 'min': min, 'math.exp': math.exp, 'numpy.exp': math.exp,
         'pow': pow, 'math.pow': math.pow, 'numpy.abs': abs, 'math.fabs': abs}
POINTS = (3, 7, 2, 5, 11, 4, 13, 6, 9, 17)


def arith_atoms(t, out):
    """the maximal parts of an arithmetic term that are not arithmetic; False if the term is not a number"""
    if t[0] == 'const':
        return isinstance(t[1], (int, float)) and not isinstance(t[1], bool)
    if t[0] == 'bin' and t[1] in ('+', '-', '*', '/', '//', '%', '**'):
        return arith_atoms(t[2], out) and arith_atoms(t[3], out)
    if t[0] == 'neg':
        return arith_atoms(t[1], out)
    if t[0] == 'call' and t[1] in ARITH and t[2] and not t[3] and (len(t[2]) > 1 or t[1] not in ('max', 'min')):
        return all(arith_atoms(x, out) for x in t[2])
    if t[0] in ('list', 'dict', 'set', 'tuple', 'fmt', 'join', 'obj', 'new'):
        return False
    out[t] = None
    return True


def arith_value(t, env):
    if t in env:
        return env[t]
    if t[0] == 'const':
        return t[1]
    if t[0] == 'neg':
        return -arith_value(t[1], env)
    if t[0] == 'bin':
        x, y = arith_value(t[2], env), arith_value(t[3], env)
        if t[1] == '**' and (abs(y) > 8 or abs(x) > 1e6):
            raise ValueError
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '//': lambda: x // y,
                '%': lambda: x % y, '**': lambda: x ** y}[t[1]]()
    return ARITH[t[1]](*[arith_value(x, env) for x in t[2]])


def arith_differ(c, a, b):
    """two arithmetic terms over the same quantities which differ at (at least three) arbitrary whole values of them"""
    if not (a[0] in ('bin', 'neg', 'call') and b[0] in ('bin', 'neg', 'call', 'len') or b[0] in ('bin', 'neg', 'call') and a[0] == 'len'):
        return False
    ua, ub = {}, {}
    if not arith_atoms(a, ua) or not arith_atoms(b, ub) or not ua or len(ua) > 6 or len(ua) != len(ub):
        return False
    if a in ua and b in ub:
        return False
    free = [x for x in ua if x not in ub]
    same = {}
    for y in ub:
        if y in ua:
            same[y] = y
            continue
        x = next((x for x in free if eq(c, x, y)), None)
        if x is None:
            return False
        free.remove(x)
        same[y] = x
    names = list(ua)
    n = 0
    for k in range(6):
        env = {t: POINTS[(3 * i + k) % len(POINTS)] for i, t in enumerate(names)}
        try:
            x, y = arith_value(a, env), arith_value(b, {t: env[same[t]] for t in ub})
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        if abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
            return False
        n += 1
    return n >= 3


def exchanged(lost, gained):
    """one parameter in place of another one"""
    return bool(lost) and bool(gained) and all(len(p) == 1 and p[0][0] == 'sym' and p[0][1] not in ('self', 'cls')
                                               for p in lost + gained)


PREFIX = ('split', 'rsplit', 'partition', 'rpartition')


def prefix_of(t):
    """(way of cutting, text) for the part of a text before a separator"""
    if t[0] == 'idx' and t[2] == ('const', '0') or t[0] == 'idx' and is_const(t[2]) and t[2][1] == 0:
        b = t[1]
        if b[0] == 'call' and b[1] == 'os.path.splitext' and len(b[2]) == 1:
            return 'ext', b[2][0]
        if b[0] == 'mcall' and b[2] in PREFIX and b[3]:
            if b[2] == 'rsplit' and len(b[3]) == 1 and not b[4]:
                return 'first', b[1]
            return 'first' if b[2] in ('split', 'partition') else 'last', b[1]
    return None


def eq(c, x, y):
    return isinstance(x, tuple) and isinstance(y, tuple) and c.cmp(x, y)[0] == 'EQ'


AGG = {'sum': 'sum', 'max': 'max', 'min': 'min', 'mean': 'mean', 'prod': 'prod', 'getnnz': 'stored', 'count_nonzero': 'count', 'median': 'median',
       'nanmean': 'mean', 'nansum': 'sum', 'amax': 'max', 'amin': 'min', 'average': 'mean', 'argmax': 'argmax', 'argmin': 'argmin'}


def aggregate(t):
    """(kind of summary, operand) of a matrix summary"""
    k = x = None
    while t[0] == 'call' and t[1] in ('numpy.asarray', 'numpy.array', 'numpy.ravel', 'numpy.squeeze', 'list') and len(t[2]) == 1 or \
            t[0] == 'mcall' and t[2] in ('ravel', 'flatten', 'squeeze', 'tolist', 'reshape', 'astype'):
        t = t[2][0] if t[0] == 'call' else t[1]
    if t[0] == 'attr' and t[2] == 'nnz':
        k, x = 'stored', t[1]
    elif t[0] == 'mcall' and t[2] in AGG:
        k, x = AGG[t[2]], t[1]
    elif t[0] == 'call' and isinstance(t[1], str) and t[1].startswith('numpy.') and t[1][6:] in AGG and t[2]:
        k, x = AGG[t[1][6:]], t[2][0]
    if k is None:
        return None
    if k == 'sum' and (x[0] in ('cmp', 'not', 'and', 'or', 'truthy') or x[0] == 'mcall' and x[2] == 'astype'):
        k = 'count'
    return k, x


def in_order(t):
    """the elements in the order of what they come from"""
    return (t[0] == 'list' and len(t) == 2 and isinstance(t[1], tuple) and t[1] and all(p[0] in ('for', 'm', 'it') for p in t[1])
            or t[0] == 'bin' and t[1] == '+' and any(in_order(x) for x in t[2:4])) \
        and not any(x[0] == 'call' and x[1] in ('sorted', 'range', 'set', 'numpy.unique') or x[0] in ('range', 'pos', 'set')
                    for x in subterms(t) if isinstance(x, tuple) and len(x) > 1)


def resorted(t):
    return t[0] == 'call' and t[1] in ('sorted', 'numpy.unique', 'numpy.sort', 'reversed') or \
        t[0] == 'call' and t[1] == 'list' and t[2] and t[2][0][0] in ('set', 'call') and (t[2][0][0] == 'set' or t[2][0][1] in ('set', 'frozenset'))


STORED = {'data', 'row', 'col', 'indices', 'indptr'}


def _shape(c, a, b):
    ha, hb = a[0], b[0]
    ga, gb = aggregate(a), aggregate(b)
    if ga and gb and ga[0] != gb[0]:
        la, oa = leaves(a)
        lb, ob = leaves(b)
        if eq(c, ga[1], gb[1]) or not oa and not ob and {p[:1] for p in la} == {p[:1] for p in lb}:
            return True
    if in_order(a) and resorted(b) or in_order(b) and resorted(a):
        return True
    if ha == hb == 'attr' and a[2] == b[2] and a[2] in STORED:
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x[1][0] == 'mcall' and x[1][2] in ('tocsr', 'tocoo', 'tocsc') and not y[1][0] == 'mcall':
                if eq(c, *((x[1][1], y[1]) if not sw else (y[1], x[1][1]))):
                    return True     # the stored arrays depend on the format
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x[0] == 'idx' and y[0] == 'mcall' and y[2] == 'get' and len(y[3]) == 2 and y[3][1] != NONE:
            if eq(c, *((x[1], y[1]) if not sw else (y[1], x[1]))) and eq(c, *((x[2], y[3][0]) if not sw else (y[3][0], x[2]))):
                if not tested(c, x[1], y[1]):
                    return True     # an unknown key is answered instead of being an error
        if x[0] == 'bin' and (y[0] == 'mcall' and len(y[3]) == 1 or y[0] == 'call' and len(y[2]) == 2 and str(y[1]).startswith('numpy.')):
            nm = y[2] if y[0] == 'mcall' else y[1][6:]
            ops = {'+': ('add', '__add__', 'sum'), '-': ('subtract', '__sub__', 'difference'), '*': ('multiply', 'dot', 'matmul', '__mul__'),
                   '/': ('divide', 'true_divide', '__truediv__')}
            if nm in ('maximum', 'minimum', 'multiply', 'dot', 'add', 'subtract', 'divide', 'fmax', 'fmin') and x[1] in ops and nm not in ops[x[1]]:
                return True
        if x[0] == 'call' and x[1] in ('numpy.ones', 'numpy.zeros', 'numpy.full', 'numpy.empty') and y[0] in ('idx', 'mcall', 'bin') \
                and not any(t[0] == 'call' and t[1] in ('numpy.ones', 'numpy.zeros', 'numpy.full', 'numpy.repeat', 'numpy.empty') or t[0] == 'mcall' and t[2] == 'fill'
                            for t in subterms(y) if isinstance(t, tuple) and len(t) > 1):
            return True
    na, nb = funcref(a), funcref(b)
    if na is not None and nb is not None and na != nb and not synonyms(na, nb, SYN) and na.split('.')[-1] != nb.split('.')[-1]:
        return True
    if ha == hb == 'call' and isinstance(a[1], str) and isinstance(b[1], str) and a[1] != b[1]:
        if len(a[2]) == len(b[2]) and all(eq(c, x, y) for x, y in zip(a[2], b[2])) and (a[2] or a[1].split('.')[0] == b[1].split('.')[0]):
            ka, kb = dict(a[3]), dict(b[3])
            if set(ka) == set(kb) and all(eq(c, ka[k], kb[k]) for k in ka):
                if a[1].split('.')[-1] == b[1].split('.')[-1] or synonyms(a[1], b[1], SYN):
                    return None
                return True
    if ha == hb == 'mcall' and a[2] != b[2]:
        if eq(c, a[1], b[1]) and len(a[3]) == len(b[3]) and all(eq(c, x, y) for x, y in zip(a[3], b[3])):
            ka, kb = dict(a[4]), dict(b[4])
            if set(ka) == set(kb) and all(eq(c, ka[k], kb[k]) for k in ka):
                if synonyms(a[2], b[2], MSYN):
                    return None
                return True
    if ha == hb == 'call' and a[1] == b[1] or ha == hb == 'mcall' and a[2] == b[2] and eq(c, a[1], b[1]):
        i = 2 if ha == 'call' else 3
        pa, pb, ka, kb = a[i], b[i], dict(a[i + 1]), dict(b[i + 1])
        if len(pa) == len(pb) and all(eq(c, x, y) for x, y in zip(pa, pb)) and all(eq(c, ka[k], kb[k]) for k in set(ka) & set(kb)):
            d = set(ka) ^ set(kb)
            if d and not any(k in BENIGN_KW for k in d):
                vals = [ka.get(k, kb.get(k)) for k in d]
                if any(k.startswith('**') or v not in (NONE, C(False), C(True)) for k, v in zip(d, vals)):
                    return True
        if len(pa) != len(pb) and set(ka) == set(kb):
            n = min(len(pa), len(pb))
            rest = (pa + pb)[n:] if False else (pa[n:] or pb[n:])
            if all(eq(c, x, y) for x, y in zip(pa[:n], pb[:n])) and all(eq(c, ka[k], kb[k]) for k in ka):
                nm = a[1] if ha == 'call' else a[2]
                if nm not in ('range', 'split', 'get', 'open', 'codecs.open', 'pop', 'getattr', 'strip', 'next', 'slice', 'sum', 'print',
                              'range', 'enumerate', 'zip', 'reshape', 'transpose', 'join', 'format', 'os.path.join', 'max', 'min', 'round',
                              'int', 'str', 'dict', 'list', 'set', 'update') and all(x not in (NONE, C(0), C(False), C(1)) for x in rest):
                    return True
    if ha == 'in' and hb in ('mcall', 'idx') or hb == 'in' and ha in ('mcall', 'idx'):
        if boldvars(c, *((('atom', a), ('val', b)) if ha == 'in' else (('val', a), ('atom', b)))):
            return True
    pa, pb = prefix_of(a), prefix_of(b)
    if pa is not None and pb is not None and pa[0] != pb[0] and eq(c, pa[1], pb[1]):
        return True
    # a conversion dropped or added
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x[0] == 'call' and isinstance(x[1], str) and x[2] and x[1] not in IDENT:
            if eq(c, *((x[2][0], y) if not sw else (y, x[2][0]))):
                return True
        if x[0] == 'call' and x[1] == 'os.path.join' and len(x[2]) > 1 and all(is_const(v) and v[1] for v in x[2][1:]):
            if eq(c, *((x[2][0], y) if not sw else (y, x[2][0]))):
                return True
        if x[0] == 'call' and x[1] in ('list', 'tuple') and len(x[2]) == 1 and x[2][0][0] == 'call' and x[2][0][1] in (
                'set', 'frozenset') and x[2][0][2]:
            z = x[2][0][2][0]
            if eq(c, *((z, y) if not sw else (y, z))):
                return True
        if x[0] == 'mcall' and x[2] not in MIDENT:
            if eq(c, *((x[1], y) if not sw else (y, x[1]))):
                return True
        if x[0] == 'attr' and y[0] != 'attr':
            pass
        if x[0] == 'ifp' and y[0] != 'ifp':
            for keep, other in ((x[2], x[3]), (x[3], x[2])):
                if len(keep) == 1 and not other:
                    z = keep[0]
                    if eq(c, *((z, y) if not sw else (y, z))):
                        return True
                    # an entry of a dictionary that is only made under a condition
                    if z[0] == y[0] == 'kv' and eq(c, *((z[1], y[1]) if not sw else (y[1], z[1]))):
                        return True
        if x[0] == 'call' and x[1] == 'str' and len(x[2]) == 1 and not x[3] and x[2][0][0] in ('sym', 'elem', 'attr'):
            if eq(c, *((x[2][0], y) if not sw else (y, x[2][0]))):
                return True
        if x[0] == 'cmp' and x[1] == '==' and y[0] == 'call' and y[1] == 'all' and len(y[2]) == 1:
            it = iterated(y[2][0])
            if it is not None and any(eq(c, *((z, it) if not sw else (it, z))) for z in x[2:4]):
                return True     # one direction only
        if x[0] == 'bin' and x[1] in '+-*/' and not is_const(y):
            for k in (2, 3):
                o = x[5 - k]
                if eq(c, *((x[k], y) if not sw else (y, x[k]))) and not (is_const(o) and o[1] in (0, 1, '', ())):
                    return True
    if ha == hb and ha in ('list', 'set', 'dict', 'tuple') and len(a) == 2 and len(b) == 2:
        pass
    return None


def tested(c, *bases):
    """is membership in the mapping asked anywhere?"""
    for s in (c.ref, c.cur):
        for t in subterms((tuple((tuple(i.guards), i.pay) for i in s.items), s.ret, tuple((n.iter if n.k == 'loop' else n.cond) for n in s.loops.values()))):
            if isinstance(t, tuple) and len(t) == 3 and t[0] == 'in':
                return True
            if isinstance(t, tuple) and len(t) > 1 and t[0] == 'exc':
                return True
    return False


def iterated(t):
    """what a comprehension runs over"""
    if t[0] in ('list', 'set') and len(t) == 2 and isinstance(t[1], tuple) and len(t[1]) == 1 and t[1][0][0] == 'm':
        return t[1][0][2]
    return None


def funcref(t):
    """name of a function or class used as a value"""
    if t[0] in ('ext', 'builtin', 'func') and len(t) == 2 and isinstance(t[1], str):
        return t[1]
    if t[0] == 'attr' and t[1][0] in ('builtin', 'ext', 'class') and isinstance(t[2], str):
        return '%s.%s' % (t[1][1], t[2])
    return None


FS = ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists', 'os.path.islink', 'os.path.getsize', 'os.path.getmtime',
      'os.access', 'os.stat', 'os.listdir', 'os.scandir')


def reads_disk(k):
    return any(t[0] == 'call' and t[1] in FS for t in subterms(k) if isinstance(t, tuple) and len(t) > 1)


def opaque_call(k):
    return any(t[0] in ('call', 'mcall', 'rcall', 'new', 'vcall') and not (t[0] == 'call' and t[1] in FS or t[0] == 'call' and t[1] in (
        'len', 'str') or t[0] == 'mcall' and t[2] in ('startswith', 'endswith', 'strip', 'split', 'lower', 'get')
        or t[0] == 'call' and str(t[1]).startswith('os.path.')) for t in subterms(k) if isinstance(t, tuple) and len(t) > 1)


def text_test(k):
    """(kind, text, pattern) of a test on a text"""
    if k[0] == 'atom' and k[1][0] == 'in' and len(k[1]) == 3 and is_const(k[1][1]) and isinstance(k[1][1][1], str):
        return 'in', k[1][2], k[1][1]
    v = k[1] if k[0] in ('val', 'atom') else None
    if isinstance(v, tuple) and v[0] == 'truthy':
        v = v[1]
    if isinstance(v, tuple) and v[0] == 'mcall' and v[2] in ('startswith', 'endswith') and len(v[3]) == 1 and is_const(v[3][0]):
        return v[2], v[1], v[3][0]
    return None


def flat(at):
    """comparison variables as terms"""
    if at[0] == 'val':
        return [at[1]]
    if at[0] == 'sum':
        return [k for k, c in at[1]]
    if at[0] == 'atom' and isinstance(at[1], tuple):
        return [x for x in at[1][1:] if isinstance(x, tuple)]
    return []


def boldvars(c, k, l):
    """two conditions over different quantities"""
    p, q = flat(k), flat(l)
    if not p or not q:
        return False
    # membership against the truth of the looked-up value
    for x, y in ((k, l), (l, k)):
        if x[0] == 'atom' and x[1][0] == 'in' and y[0] == 'val':
            v = y[1]
            if v[0] == 'mcall' and v[2] == 'get' and v[3]:
                m = (x[1][1], v[3][0]) if x is k else (v[3][0], x[1][1])
                if eq(c, *m):
                    return True
            if v[0] == 'idx':
                m = (x[1][1], v[2]) if x is k else (v[2], x[1][1])
                if eq(c, *m):
                    return True
    ta, tb = text_test(k), text_test(l)
    if ta and tb and ta[0] != tb[0] and eq(c, ta[1], tb[1]) and ta[2] == tb[2]:
        return True
    if reads_disk(k) != reads_disk(l) and not opaque_call(k) and not opaque_call(l):
        return True
    if len(p) == len(q):
        for q2 in (q, q[::-1]):
            r = [eq(c, x, y) or bool(_shape(c, x, y)) for x, y in zip(p, q2)]
            if all(r):
                return True
    if len(p) == len(q) == 2:
        for q2 in (q, q[::-1]):
            w = [wrapped(c, x, y) for x, y in zip(p, q2)]
            e = [eq(c, x, y) for x, y in zip(p, q2)]
            if all(a or b for a, b in zip(w, e)) and any(w):
                return True
    la, oa = set(), False
    lb, ob = set(), False
    for x in p:
        s, o = leaves(x)
        la |= s
        oa |= o
    for x in q:
        s, o = leaves(x)
        lb |= s
        ob |= o
    if oa or ob:
        return False
    lost = [x for x in la if not covered(x, lb)]
    gained = [x for x in lb if not covered(x, la)]
    return bool(lost) != bool(gained) or exchanged(lost, gained)


def wrapped(c, x, y):
    for a, b, sw in ((x, y, False), (y, x, True)):
        if a[0] in ('len', 'neg') and not eq(c, a[1], b[1] if b[0] == a[0] else b) and False:
            return False
        inner = None
        if a[0] == 'len':
            inner = a[1]
        elif a[0] == 'call' and isinstance(a[1], str) and a[2] and a[1] not in IDENT:
            inner = a[2][0]
        elif a[0] == 'mcall' and a[2] not in MIDENT:
            inner = a[1]
        elif a[0] == 'idx' and a[2][0] in ('const', 'slice'):
            inner = a[1]
        if inner is not None and eq(c, *((inner, b) if not sw else (b, inner))):
            return True
    return False


def interval(ua, ub):
    """membership in a set on one side, order comparisons of the same thing on the other"""
    for x, y in ((ua, ub), (ub, ua)):
        if len(x) == 1 and x[0][0] == 'atom' and x[0][1][0] == 'in' and all(k[0] == 'sum' for k in y):
            m = x[0][1][1]
            if m[0] in ('sym', 'elem', 'attr', 'idx') and all(any(t == m for t, _ in k[1]) for k in y):
                return True
    return False
