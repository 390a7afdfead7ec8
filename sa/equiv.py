"""Three-valued comparison of two normal forms (reviewed reference / current tree).

EQ    every effect, guard, loop and returned value of the two summaries agree
DIFF  they agree everywhere except at sites whose terms denote different values
      over the same inputs (the differing pair is reported)
UNK   the code is shaped differently in a way the term algebra cannot relate;
      never an alarm

The reference is only a table of reviewed instances: what is compared is the
gated value-dependence summary of sa.nf, not the text, so renaming, reordering of
independent statements, helper extraction, loop/comprehension rewriting, guard
inversion and the like leave the verdict at EQ (or, at worst, UNK).
"""
import ast
import itertools
import time

from .nf import (Interp, S, C, list_attributes, NONE, TRUE, FALSE, mk_cmp, mk_not, mk_and, mk_or, mk_ite, lin, mk_lin, lin_diff, truth, is_const, is_bool,
                 subterms, contains, contains_any, deref, show, State, Frame, N, is_generator, BOOL_OPS)
from .model import AnalysisBroken, dotted
from .bold import arith_differ, bolder, boldvars, interval, kindred

EQ, DIFF, UNK = 'EQ', 'DIFF', 'UNK'
UNKC = ('unkc',)

IGNORED_EXT = ('logging.', 'print', 'warnings.', 'tqdm.', 'time.time', 'sys.stdout', 'sys.stderr', 'gc.', 'time.perf_counter',
               'time.process_time', 'datetime.', 'builtins.print', 'traceback.')
IMPURE_EXT = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs',
              'os.kill', 'os._exit', 'os.system', 'os.chmod', 'os.symlink', 'shutil.', 'open', 'codecs.open', 'io.open', 'json.dump',
              'pickle.dump', 'cPickle.dump', 'random.', 'numpy.random.', 'time.sleep', 'multiprocessing.', 'threading.',
              'numpy.save', 'numpy.savez', 'scipy.sparse.save_npz', 'subprocess.', 'sys.exit', 'exit', 'setattr', 'delattr', 'exec',
              'tempfile.', 'numpy.fill_diagonal', 'numpy.put', 'numpy.copyto', 'heapq.', 'bisect.insort', 'next')
IMPURE_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'update', 'setdefault', 'sort', 'reverse', 'discard',
                  'popitem', 'popleft', 'appendleft', 'difference_update', 'intersection_update', 'put', 'write', 'writelines',
                  'start', 'terminate', 'kill', 'close', 'send', 'recv', 'setdiag', 'eliminate_zeros', 'sum_duplicates', 'resize',
                  'sort_indices', 'fill', 'itemset', 'add_node', 'add_edge', 'remove_node', 'remove_edge', 'add_nodes_from',
                  'add_edges_from', 'apply_async', 'to_csv', 'to_pickle', 'dump', 'flush', 'truncate', 'task_done', 'put_nowait',
                  'get_nowait', 'readline', 'rotate', 'shuffle', 'seed', '__setitem__', '__delitem__', 'cancel_join_thread', 'acquire',
                  'release', 'set', 'join_thread', 'setflags', 'partition', 'most_common_', 'unlink', 'mkdir', 'rmdir', 'tofile'}
# calls on one object whose relative order is part of what is done
# defaults of options of library functions the package uses
EXT_DEFAULT = {
    'json.dump': {'ensure_ascii': True, 'indent': None, 'sort_keys': False}, 'json.dumps': {'ensure_ascii': True, 'indent': None, 'sort_keys': False},
    'sorted': {'reverse': False}, 'os.makedirs': {'exist_ok': False}, 'tempfile.mkdtemp': {'dir': None, 'prefix': None, 'suffix': None},
    'os.walk': {'topdown': True, 'followlinks': False}, 'shutil.rmtree': {'ignore_errors': False},
    'pandas.read_csv': {'sep': ',', 'index_col': None, 'header': 'infer', 'keep_default_na': True, 'na_filter': True, 'quoting': 0},
    'numpy.load': {'allow_pickle': False, 'mmap_mode': None}, 'sum': {'start': 0}, 'enumerate': {'start': 0},
    'networkx.relabel_nodes': {'copy': True},
}
EXT_MDEFAULT = {
    'to_csv': {'sep': ',', 'index': True, 'header': True, 'index_label': None, 'na_rep': '', 'quoting': 0},
    'sort': {'reverse': False}, 'sort_values': {'ascending': True}, 'rename': {}, 'fillna': {}, 'reset_index': {'drop': False},
}
_D = object()       # no default
EXT_SIG = {
    'open': (('file', _D), ('mode', 'r'), ('buffering', -1), ('encoding', None), ('errors', None), ('newline', None)),
    'io.open': (('file', _D), ('mode', 'r'), ('buffering', -1), ('encoding', None), ('errors', None), ('newline', None)),
    'codecs.open': (('filename', _D), ('mode', 'r'), ('encoding', None), ('errors', 'strict'), ('buffering', -1)),
    'enumerate': (('iterable', _D), ('start', 0)), 'sum': (('iterable', _D), ('start', 0)),
    'json.dump': (('obj', _D), ('fp', _D)), 'json.load': (('fp', _D),),
    'numpy.sum': (('a', _D), ('axis', None)), 'numpy.argsort': (('a', _D), ('axis', -1)), 'numpy.mean': (('a', _D), ('axis', None)),
    'numpy.max': (('a', _D), ('axis', None)), 'numpy.min': (('a', _D), ('axis', None)), 'numpy.argmax': (('a', _D), ('axis', None)),
    'numpy.array': (('object', _D), ('dtype', None)), 'numpy.asarray': (('a', _D), ('dtype', None)),
    'pandas.DataFrame': (('data', None), ('index', None), ('columns', None), ('dtype', None)),
    're.compile': (('pattern', _D), ('flags', 0)), 're.match': (('pattern', _D), ('string', _D), ('flags', 0)),
    're.search': (('pattern', _D), ('string', _D), ('flags', 0)),
    'tempfile.mkdtemp': (('suffix', None), ('prefix', None), ('dir', None)),
    'shutil.rmtree': (('path', _D), ('ignore_errors', False)), 'copy.deepcopy': (('x', _D), ('memo', None)),
    'sklearn.metrics.pairwise.cosine_similarity': (('X', _D), ('Y', None), ('dense_output', True)),
    'round': (('number', _D), ('ndigits', None)), 'numpy.argpartition': (('a', _D), ('kth', _D), ('axis', -1)),
    'multiprocessing.Pool': (('processes', None),), 'os.listdir': (('path', _D),),
}
EXT_MSIG = {
    'split': (('sep', None), ('maxsplit', -1)), 'rsplit': (('sep', None), ('maxsplit', -1)), 'strip': (('chars', None),),
    'rstrip': (('chars', None),), 'lstrip': (('chars', None),), 'get': (('key', _D), ('default', None)),
    'toarray': (('order', None),), 'todense': (('order', None),), 'splitlines': (('keepends', False),),
    'sample': (('n', None),), 'group': (('g', 0),), 'setdefault': (('key', _D), ('default', None)),
}


def canon_args(sig, pos, kw):
    """arguments by name, without those that equal their default; None if that cannot be told"""
    if len(pos) > len(sig) or any(x[0] == 'star' for x in pos) or any(not k or k.startswith('**') for k in kw):
        return None
    out = dict(kw)
    for (n, d), v in zip(sig, pos):
        if n in out:
            return None
        out[n] = v
    for n, d in sig:
        if d is not _D and out.get(n) == C(d):
            del out[n]
    return out


EXTERNAL_TOO = {'sum', 'mean', 'copy', 'get', 'sort', 'join', 'split', 'count', 'index', 'format', 'max', 'min', 'dot', 'multiply', 'transpose',
                'drop', 'sample', 'head', 'tail', 'describe', 'items', 'keys', 'values', 'match', 'search', 'update', 'pop'}
SEQUENCED = {'append', 'extend', 'insert', 'appendleft', 'pop', 'popleft', 'clear', 'sort', 'reverse', 'write', 'writelines', 'put',
             'get', 'start', 'join', 'terminate', 'close', 'send', 'recv', 'add', 'discard', 'remove', 'readline', 'seek', 'flush',
             'put_nowait', 'get_nowait', 'acquire', 'release', 'writerow', 'read', 'read_file', 'readlines'}
COMMUTE = {'add', 'flush'}
FILES = ('os.', 'shutil.', 'open')
LOGGERISH = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}

FAMILIES = [
    {'min', 'max', 'sum', 'mean', 'median', 'prod', 'argmin', 'argmax', 'any', 'all', 'cumsum', 'std', 'var', 'nonzero',
     'count_nonzero', 'len', 'average', 'argsort', 'unique'},
    {'log', 'log2', 'log10', 'log1p', 'exp', 'exp2', 'sqrt', 'square', 'abs', 'floor', 'ceil', 'sign', 'round', 'trunc'},
    {'zeros', 'ones', 'empty', 'full', 'eye', 'zeros_like', 'ones_like', 'empty_like'},
    {'vstack', 'hstack', 'dstack'},
    {'maximum', 'minimum'}, {'multiply', 'divide', 'add', 'subtract', 'dot', 'true_divide', 'floor_divide'},
    {'copy', 'deepcopy'},
    {'append', 'extend', 'add', 'insert', 'appendleft', 'discard', 'remove'},
    {'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}, {'strip', 'lstrip', 'rstrip'}, {'startswith', 'endswith'},
    {'keys', 'values', 'items'}, {'lower', 'upper', 'title', 'capitalize'},
    {'intersection', 'union', 'difference', 'symmetric_difference'},
    {'match', 'search', 'fullmatch', 'findall', 'finditer'}, {'pop', 'popleft'}, {'index', 'rindex'}, {'find', 'rfind'},
    {'predecessors', 'successors'}, {'in_degree', 'out_degree', 'degree'}, {'isfile', 'isdir', 'exists', 'islink'},
    {'dirname', 'basename', 'abspath'}, {'load', 'dump'}, {'loads', 'dumps'}, {'remove', 'rmtree', 'rmdir'},
    {'join', 'terminate', 'kill', 'start'}, {'head', 'tail'}, {'isnan', 'isinf', 'isfinite'},
    {'cosine_distances', 'euclidean_distances', 'manhattan_distances', 'cosine_similarity'},
    {'nanmin', 'nanmax', 'nansum'}, {'islower', 'isupper', 'isdigit', 'isalpha'}, {'tril', 'triu'}, {'ceil', 'floor'},
    {'int', 'float', 'str', 'bool'},
]
def opposite(v):
    """not v"""
    return mk_not(truth(v)) if v and isinstance(v[0], str) and v[0] in ('sym', 'attr', 'idx', 'elem') else None


def given_order(a, b):
    """a sorts what b puts one after the other as it was given"""
    if a[:2] != ('call', 'sorted') or len(a[2]) != 1 or a[3]:
        return False
    joined = False
    while isinstance(b, tuple) and b:
        if b[:2] in (('call', 'list'), ('call', 'tuple')) and len(b[2]) == 1 and not b[3]:
            b = b[2][0]
        elif b[:2] == ('bin', '+'):
            b, joined = b[2], True
        elif b[0] == 'mcall' and b[1:3] == (('builtin', 'dict'), 'fromkeys') and len(b[3]) == 1:
            b, joined = b[3][0], True
        else:
            break
    if not joined or not isinstance(b, tuple) or b[:1] not in (('sym',), ('attr',)):
        return False
    stack = [a]
    while stack:
        x = stack.pop()
        if x == b:
            return True
        if isinstance(x, tuple):
            stack.extend(x)
    return False


ORDER_WRAPPERS = {'sorted', 'reversed'}
COPY_WRAPPERS = {'copy.deepcopy', 'copy.copy'}
CONTAINERS = {'list', 'tuple', 'set', 'frozenset'}


def reads_from(fn, name):
    """does a function look into one of its parameters (other than to call a method that changes it)?"""
    called = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
              and n.func.attr in IMPURE_METHODS}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Load) and id(n) not in called \
                and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == name:
            return True
    return False


class Budget(Exception):
    pass


class Item:
    __slots__ = ('kind', 'guards', 'loops', 'tries', 'pay', 'loc', 'fn', 'extra')

    def __init__(self, kind, guards, loops, tries, pay, loc, fn, extra=None):
        self.kind, self.guards, self.loops, self.tries = kind, guards, loops, tries
        self.pay, self.loc, self.fn, self.extra = pay, loc, fn, extra

    def __repr__(self):
        return '%s %s  if %s  in %s' % (self.kind, show(self.pay), ' & '.join(show(g) for g in self.guards), self.loops)


class Summary:
    """collected, comparable form of one function"""

    def __init__(self):
        self.items = []
        self.loops = {}       # lid -> node
        self.order = []       # lids in order of appearance
        self.parent = {}
        self.ret = NONE
        self.fi = None
        self.inner_ret = False


# ------------------------------------------------------------------ purity
def abstract(node):
    body = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if all(isinstance(x, ast.Pass) for x in body):
        return True
    if len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None:
        e = body[0].exc
        e = e.func if isinstance(e, ast.Call) else e
        return isinstance(e, ast.Name) and e.id == 'NotImplementedError'
    return False


# method names that library containers and arrays have as well
COMMON_NAMES = {'copy', 'get', 'items', 'keys', 'values', 'sum', 'match', 'equal', 'index', 'shape', 'sample', 'reverse',
                'reorder', 'head', 'describe', 'multiply', 'transpose'}


class Purity:
    """which in-package functions have an observable effect (stores, mutation, i/o, raise)"""

    def __init__(self, prog, base=None):
        self.prog = prog
        self.impure = set()      # mutation, i/o
        self.raises = set()      # may only raise
        self.visible = set()     # what they do remains after the call, other than in an object they construct
        self.names = set()
        self.stateful = {c.qual for m in prog.modules.values() for c in m.classes.values() if prog.stateful(c)}
        if base is not None:
            # functions that exist in the reviewed program keep their reviewed class: a change of
            # their own effects is reported by their own comparison
            old = {f.qual for f in base.prog.funcs}
            self.stateful = base.stateful | {c for c in self.stateful if c not in {
                k.qual for m in base.prog.modules.values() for k in m.classes.values()}}
            own = Purity(prog)
            self.impure = base.impure | {q for q in own.impure if q not in old}
            self.raises = (base.raises | {q for q in own.raises if q not in old}) - self.impure
            self.visible = base.visible | {q for q in own.visible if q not in old}
            self.names = set(base.names)
            return
        calls = {}
        props = {f.name for f in prog.funcs if f.is_property}
        for f in prog.funcs:
            imp = vis = False
            rai = False
            cs = set()
            mine = f.name == '__init__' and f.node.args.args and f.node.args.args[0].arg
            local_fresh = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(
                        n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                    local_fresh.add(n.targets[0].id)
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(
                        n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in (
                        'list', 'dict', 'set', 'defaultdict', 'deque', 'OrderedDict', 'Counter'):
                    local_fresh.add(n.targets[0].id)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                                b = x
                                while isinstance(b, (ast.Attribute, ast.Subscript)):
                                    b = b.value
                                if not (isinstance(b, ast.Name) and b.id in local_fresh):
                                    imp = True
                                    vis |= not (mine and isinstance(b, ast.Name) and b.id == mine)
                elif isinstance(n, (ast.Raise, ast.Assert)):
                    rai = True
                elif isinstance(n, (ast.Yield, ast.Global)):
                    imp = vis = True
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in props:
                    cs.add(n.attr)
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute):
                        d = dotted(n.func)
                        if d is not None:
                            d = {'np': 'numpy', 'mp': 'multiprocessing'}.get(d.split('.')[0], d.split('.')[0]) + d[len(d.split('.')[0]):]
                            if d not in ('multiprocessing.cpu_count', 'multiprocessing.current_process') and any(
                                    d == p or d.startswith(p if p.endswith('.') else p + '.') for p in IMPURE_EXT):
                                imp = vis = True
                        b = n.func.value
                        while isinstance(b, (ast.Attribute, ast.Subscript)):
                            b = b.value
                        fresh = isinstance(b, ast.Name) and b.id in local_fresh
                        if n.func.attr in IMPURE_METHODS and not fresh:
                            imp = True
                            vis |= not (mine and isinstance(b, ast.Name) and b.id == mine)
                        cs.add(n.func.attr)
                    elif isinstance(n.func, ast.Name):
                        cs.add(n.func.id)
                        if n.func.id in ('open', 'setattr', 'exec', 'next'):
                            imp = vis = True
            if imp:
                self.impure.add(f.qual)
            if vis:
                self.visible.add(f.qual)
            if rai:
                self.raises.add(f.qual)
            calls[f.qual] = cs
        byname = {}
        for f in prog.funcs:
            byname.setdefault(f.name, []).append(f.qual)
            if f.name == '__init__' and f.cls is not None:
                byname.setdefault(f.cls.name, []).append(f.qual)
        for tgt in (self.impure, self.raises, self.visible):
            ch = True
            while ch:
                ch = False
                for f in prog.funcs:
                    if f.qual in tgt:
                        continue
                    for c in calls[f.qual]:
                        if tgt is self.visible and c in COMMON_NAMES:
                            continue
                        if any(q in tgt for q in byname.get(c, ())) and (f.name != '__init__' or tgt is self.visible):
                            tgt.add(f.qual)
                            ch = True
                            break
        # an abstract method stands for whatever a subclass does
        for f in prog.funcs:
            if f.cls is not None and abstract(f.node):
                self.impure.add(f.qual)
                self.visible.add(f.qual)
        self.raises -= self.impure
        for f in prog.funcs:
            if f.qual in self.impure and f.name != '__init__':
                self.names.add(f.name)
        self.names -= COMMON_NAMES


def ignored_call(v):
    if v[0] == 'call' and isinstance(v[1], str):
        return v[1] == 'print' or any(v[1].startswith(p) for p in IGNORED_EXT if p != 'print')
    if v[0] == 'mcall' and v[2] in LOGGERISH:
        b = v[1]
        return b[0] in ('global', 'ext', 'call', 'attr', 'sym')
    return False


def is_effect(v, pur):
    if v[0] == 'call':
        if isinstance(v[1], tuple):
            return v[1][0] not in ('class',)
        if ignored_call(v):
            return False
        n = v[1]
        if n == 'next':
            return True
        if n in ('multiprocessing.cpu_count', 'multiprocessing.current_process'):
            return False
        return any(n == p or (p.endswith('.') and n.startswith(p)) or n.startswith(p + '.') for p in IMPURE_EXT)
    if v[0] == 'mcall':
        if ignored_call(v):
            return False
        n = v[2]
        if n in IMPURE_METHODS or ('inplace', C(True)) in v[4]:
            return True
        if n == 'join' and not v[3]:
            return True
        if n == 'get' and not v[3]:
            return True
        return n in pur.names
    if v[0] == 'rcall':
        return v[1] in pur.impure or v[1] in pur.raises
    if v[0] == 'new':
        return v[1] in pur.stateful
    return False


# ------------------------------------------------------------------ collection
def always_raises(effs):
    for n in reversed(effs):
        if n.k == 'raise':
            return True
        if n.k == 'if':
            if n.then is not None and always_raises(n.then) and always_raises(n.els):
                return True
        if n.k == 'inl' and always_raises(n.body) and not has_ret(n.body):
            return True
        if n.k in ('ret', 'break', 'continue'):
            return False
    return False


def has_ret(effs):
    for n in effs:
        if n.k == 'ret':
            return True
        if n.k == 'if' and (has_ret(n.then) or has_ret(n.els)):
            return True
        if n.k in ('loop', 'while', 'try', 'iter') and has_ret(n.body):
            return True
    return False


class Collector:
    def __init__(self, res, pur, limit=4000):
        self.res = res
        self.it = res.interp
        self.st = res.state
        self.pur = pur
        self.sum = Summary()
        self.sum.fi = res.fi
        self.lamdepth = 0
        self.doomed = 0
        self.n = 0
        self.limit = limit

    def run(self):
        self.walk(self.res.effects, (), (), (), True)
        self.sum.ret = self.term(self.res.ret)
        # drop mutations of local containers whose final contents are known everywhere
        raw = set()

        def objs(v):
            for t in subterms(v):
                if t and t[0] == 'obj' and len(t) == 2:
                    yield t
        prim = [i for i in self.sum.items if not i.extra]
        loc = [i for i in self.sum.items if i.extra]
        for i in prim:
            raw.update(objs(i.pay))
            for g in i.guards:
                raw.update(objs(g))
        raw.update(objs(self.sum.ret))
        for l in self.sum.loops.values():
            if l.k == 'loop':
                raw.update(objs(l.iter))
        keep = []
        ch = True
        pend = list(loc)
        while ch:
            ch = False
            rest = []
            for i in pend:
                if i.extra in raw:
                    keep.append(i)
                    raw.update(objs(i.pay))
                    ch = True
                else:
                    rest.append(i)
            pend = rest
        ks = set(map(id, prim)) | set(map(id, keep))
        self.sum.items = [i for i in self.sum.items if id(i) in ks]
        # a call that can only raise and whose value is used is judged where it is used
        soft = [i for i in self.sum.items if i.kind == 'call' and i.pay[0] == 'rcall' and i.pay[1] in self.pur.raises]
        if soft:
            sid = {id(i) for i in soft}
            want = {i.pay for i in soft}
            used = set()

            def scan(v, own=None):
                for t in subterms(v):
                    if t and t[0] == 'rcall' and t in want and t is not own and t != own:
                        used.add(t)
            for i in self.sum.items:
                scan(i.pay, i.pay if id(i) in sid else None)
                for g in i.guards:
                    scan(g)
            scan(self.sum.ret)
            for l in self.sum.loops.values():
                scan(l.iter)
                scan(l.cond)
                for vs in l.carry.values():
                    for x in vs:
                        if x is not None:
                            scan(x)
            self.sum.items = [i for i in self.sum.items if not (id(i) in sid and i.pay in used)]
        return self.sum

    def term(self, v):
        v = deref(v, self.st)
        return self.norm(v)

    def norm(self, v):
        """final term normalisation: lambdas to bodies, string building to fmt"""
        return _norm(v, self)

    def lam(self, lid):
        e, cst, cfr = self.it.lambdas[lid]
        self.lamdepth += 1
        try:
            if self.lamdepth > 3:
                return ('lam', '...')
            if isinstance(e, ast.Lambda):
                st = cst.copy()
                st.env = dict(st.env)
                for i, a in enumerate(e.args.args):
                    st.env[a.arg] = ('lamarg', self.lamdepth, i)
                eff = []
                v = self.it.ev(e.body, st, eff, cfr)
                return ('lam', len(e.args.args), self.norm(deref(v, st)))
            fi = e
            st = cst.copy()
            args = [('lamarg', self.lamdepth, i) for i in range(len(fi.params()))]
            eff = []
            v = self.it.call_lambda(lid, args, {}, st, eff, cfr, None)
            return ('lam', len(args), self.norm(deref(v, st)))
        except RecursionError:
            raise
        except Exception:
            return ('lam', '?')
        finally:
            self.lamdepth -= 1

    def add(self, kind, guards, loops, tries, pay, n, extra=None):
        self.n += 1
        if self.n > self.limit:
            raise Budget('too many effects')
        self.sum.items.append(Item(kind, guards, loops, tries, pay, n.loc, n.fn, extra))

    def localroot(self, t):
        while isinstance(t, tuple) and t and t[0] in ('idx', 'attr', 'mcall'):
            t = t[1]
        if isinstance(t, tuple) and t and t[0] == 'obj' and t not in self.it.obj_class:
            return t
        return None

    def walk(self, effs, guards, loops, tries, top):
        for n in effs:
            k = n.k
            if k == 'if':
                c = self.term(n.cond)
                rt, re_ = always_raises(n.then), always_raises(n.els)
                gt = guards if re_ and not rt else guards + (c,)
                ge = guards if rt and not re_ else guards + (mk_not(c),)
                self.doomed += rt and not re_
                self.walk(n.then, gt, loops, tries, top)
                self.doomed += (re_ and not rt) - (rt and not re_)
                self.walk(n.els, ge, loops, tries, top)
                self.doomed -= re_ and not rt
            elif k in ('loop', 'while'):
                lid = n.lid
                if lid not in self.sum.loops:
                    m = N(n.k, n.loc, n.fn, lid=lid, iter=self.term(n.iter) if n.iter is not None else NONE,
                          cond=self.term(n.cond), carry={kk: tuple(None if x is None else self.term(x) for x in vv)
                                                         for kk, vv in n.carry.items()}, has_break=n.has_break, has_ret=n.has_ret, g=guards)
                    self.sum.loops[lid] = m
                    self.sum.order.append(lid)
                    self.sum.parent[lid] = loops[-1] if loops else None
                self.walk(n.condeff, guards, loops + (lid,), tries, top)
                self.walk(n.body, guards, loops + (lid,), tries, top)
            elif k == 'inl':
                self.walk(n.body, guards, loops, tries, False)
            elif k == 'iter':
                self.walk(n.body, guards, loops, tries, top)
            elif k == 'try':
                names = tuple(sorted(x for hn, _, _ in n.handlers for x in hn))
                self.walk(n.body, guards, loops, tries + (names,), top)
                for i, (hn, he, loc) in enumerate(n.handlers):
                    self.add('handler', guards, loops, tries, ('handler', tuple(sorted(hn)), self.hsum(he)), n)
                    self.walk(he, guards + (('exc', n.id, i),), loops, tries, top)
                self.walk(n.final, guards, loops, tries, top)
            elif k == 'call':
                v = self.term(n.val)
                if self.doomed and (v[0] == 'rcall' and v[1] in self.pur.raises or v[0] == 'call' and isinstance(v[1], tuple)):
                    continue        # part of building the error
                if is_effect(v, self.pur):
                    r = self.localroot(v[1]) if v[0] == 'mcall' else None
                    self.add('call', guards, loops, tries, v, n, r)
            elif k == 'store':
                t = self.term(n.target) if n.target[0] != 'obj' else n.target
                r = self.localroot(n.target)
                if r is not None:
                    t = (n.target[0], n.target[1], self.term(n.target[2]) if isinstance(n.target[2], tuple) else n.target[2])
                val = self.term(n.val)
                if t[0] == 'idx' and val[0] == 'bin' and val[1] in '+-*/' and val[2] == self.term(n.target):
                    # t[k] = t[k] + v
                    self.add('aug', guards, loops, tries, ('aug', val[1], t, val[3]), n, r)
                    continue
                self.add('store', guards, loops, tries, ('store', t, val), n, r)
            elif k == 'aug':
                if n.a.get('name') is not None and n.target[0] != 'obj':
                    if n.target[0] in ('attr', 'idx', 'sym') and n.op in ('+', '|', '-') and n.target[0] != 'const':
                        pass   # x += on a local name: value tracked in env (rebinding)
                    continue
                r = self.localroot(n.target)
                t = n.target if r is not None else self.term(n.target)
                if r is not None and n.target[0] == 'idx':
                    t = ('idx', n.target[1], self.term(n.target[2]))
                self.add('aug', guards, loops, tries, ('aug', n.op, t, self.term(n.val)), n, r)
            elif k == 'mut':
                self.add('mut', guards, loops, tries, ('mut', n.target, n.name, tuple(self.term(a) for a in n.args)), n, n.target)
            elif k == 'del':
                r = self.localroot(n.target)
                self.add('del', guards, loops, tries, ('delete', n.target if r is not None else self.term(n.target)), n, r)
            elif k == 'raise':
                v = n.val
                self.add('raise', guards, loops, tries, ('raise', exc_class(v)), n)
            elif k == 'assert':
                self.add('raise', guards + (mk_not(self.term(n.cond)),), loops, tries, ('raise', 'AssertionError'), n)
            elif k == 'yield':
                self.add('yield', guards, loops, tries, ('yield', self.term(n.val)), n)
            elif k == 'break':
                self.add('break', guards, loops, tries, ('break',), n)
            elif k == 'unknown':
                self.add('unknown', guards, loops, tries, ('unknownstmt', n.what), n)
            elif k == 'ret' and top and loops:
                self.add('ret', guards, loops, tries, ('ret', self.term(n.val)), n)
            elif k == 'ret' and loops:
                self.sum.inner_ret = True

    def hsum(self, effs):
        """what a handler does with the error: raises / returns / continues"""
        return 'raises' if always_raises(effs) else 'swallows'


def minmax(v):
    """the larger or smaller of a value and a number as a choice"""
    if v[0] == 'ite':
        return ('ite', v[1], minmax(v[2]), minmax(v[3]))
    if v[0] == 'call' and v[1] in ('min', 'max') and len(v[2]) == 2 and not v[3]:
        x, c = v[2]
        if is_const(x):
            x, c = c, x
        if is_const(c) and isinstance(c[1], (int, float)) and not isinstance(c[1], bool) and not is_const(x):
            return ('ite', mk_cmp('<', c, x) if v[1] == 'max' else mk_cmp('<', x, c), x, c)
    return v


def exc_class(v):
    if v[0] == 'call':
        return str(v[1] if isinstance(v[1], str) else v[1][-1])
    if v[0] in ('new', 'rcall'):
        return v[1]
    if v[0] in ('builtin', 'ext', 'class'):
        return v[1]
    if v[0] == 'mcall' and v[2] == 'with_traceback':
        return exc_class(v[1])
    return v[0]


def _norm(v, col):
    if not isinstance(v, tuple) or not v:
        return v
    h = v[0]
    if h == 'const' or h == 'LID':
        return v
    if h == 'obj' and len(v) == 2:
        return v
    if h == 'lambda' and len(v) == 2:
        return col.lam(v[1])
    w = tuple(_norm(x, col) if isinstance(x, tuple) else x for x in v)
    if h == 'bin' and w[1] == '+':
        a, b = w[2], w[3]
        if strish(a) or strish(b):
            return mk_fmt(fparts(a) + fparts(b))
    if h == 'bin' and w[1] == '%' and is_const(w[2]) and isinstance(w[2][1], str):
        s = w[2][1]
        args = list(w[3][1:]) if w[3][0] == 'tuple' else [w[3]]
        if s.count('%') == s.count('%s') + s.count('%d') and s.count('%s') + s.count('%d') == len(args):
            parts = []
            import re
            for piece in re.split(r'(%[sd])', s):
                if piece in ('%s', '%d'):
                    parts.append(args.pop(0))
                elif piece:
                    parts.append(C(piece))
            return mk_fmt(parts)
        import re
        ps = re.split(r'(%(?:[0-9]*(?:\.[0-9]+)?[sdrifgGeExXo]|%))', s)
        if sum(p.startswith('%') and len(p) > 1 and p != '%%' for p in ps) == len(args) and not any('%' in p for p in ps[::2]):
            parts = []
            for piece in ps:
                if piece == '%%':
                    parts.append(C('%'))
                elif piece.startswith('%'):
                    x = args.pop(0)
                    if piece == '%r':
                        x = ('call', 'repr', (x,), ())
                    elif piece[1:] not in ('s', 'd', 'i'):
                        x = ('call', 'format', (x, C(piece[1:])), ())
                    parts.append(x)
                elif piece:
                    parts.append(C(piece))
            return mk_fmt(parts)
    if h == 'fmt':
        return mk_fmt(w[1:])
    if h == 'join' and is_const(w[1]) and w[2][0] in ('list', 'tuple'):
        els = None
        if w[2][0] == 'tuple':
            els = list(w[2][1:])
        elif len(w[2]) == 2 and all(p[0] == 'i' for p in w[2][1]):
            els = [p[1] for p in w[2][1]]
        if els:
            parts = []
            for i, e in enumerate(els):
                if i:
                    parts.append(w[1])
                parts.append(e)
            return mk_fmt(parts)
    if h == 'call' and w[1] == 'os.path.join':
        flat = []
        for a in w[2]:
            if a[0] == 'call' and a[1] == 'os.path.join' and not flat:
                flat.extend(a[2])
            else:
                flat.append(a)
        return ('call', w[1], tuple(flat), w[3])
    if h == 'call' and w[1] == 'operator.itemgetter' and len(w[2]) == 1:
        return ('lam', 1, ('idx', ('lamarg', 1, 0), w[2][0]))
    if h == 'call' and w[1] == 'operator.attrgetter' and len(w[2]) == 1 and is_const(w[2][0]):
        return ('lam', 1, ('attr', ('lamarg', 1, 0), w[2][0][1]))
    if h == 'slice':
        lo = NONE if w[1] == C(0) else w[1]
        st = NONE if w[3] == C(1) else w[3]
        return ('slice', lo, w[2], st)
    if h in ('and', 'or'):
        return (mk_and if h == 'and' else mk_or)(*w[1:])
    if h == 'not':
        return mk_not(w[1])
    if h == 'ite':
        if w[1][0] == 'looped':
            w = (h, w[1], w[2], notexited(w[3], w[1]))
        return mk_ite(w[1], w[2], w[3])
    if h == 'ifp' and w[1][0] == 'looped':
        return (h, w[1], w[2], notexited(w[3], w[1]))
    if h in ('list', 'set') and len(w) == 2 and isinstance(w[1], tuple):
        # [f(x) for x in it] with identity body -> list(it)
        return w
    return w


def lits(f):
    return set(f[1:]) if f[0] == 'and' else {f}


def notexited(v, looped):
    """v under 'loop lid never met its exit condition c': inside the loop every element has not c"""
    lid, c = looped[1], looped[2]
    cl = lits(c)

    def simp(g):
        if g[0] == 'and':
            keep = list(g[1:])
            ch = True
            while ch:
                ch = False
                for l in list(keep):
                    rest = set(keep) - {l}
                    if cl <= rest | {mk_not(l)}:
                        keep.remove(l)
                        ch = True
                        break
            return mk_and(*keep) if keep else TRUE
        if cl <= {mk_not(g)}:
            return TRUE
        if cl <= {g}:
            return FALSE
        return g

    def inside(x):
        if not isinstance(x, tuple) or not x:
            return None
        if x[0] == 'ifp':
            g = simp(x[1])
            t = tuple(rewrite(y, inside) for y in x[2])
            e = tuple(rewrite(y, inside) for y in x[3])
            ng = mk_not(g)
            if ng[0] == 'and':
                ng2 = simp(ng)
                if ng2 != ng:
                    g = mk_not(ng2)
            if g == TRUE and len(t) == 1:
                return t[0]
            if g == FALSE and len(e) == 1:
                return e[0]
            if g[0] == 'not':
                return ('ifp', g[1], e, t)
            return ('ifp', g, t, e)
        if x[0] == 'ite':
            return mk_ite(simp(x[1]), rewrite(x[2], inside), rewrite(x[3], inside))
        return None

    def outer(x):
        if isinstance(x, tuple) and x and x[0] == 'm' and len(x) > 3 and x[1] == lid:
            return ('m', x[1], x[2], tuple(rewrite(y, inside) for y in x[3])) + tuple(x[4:])
        return None
    return rewrite(v, outer)


def strish(a):
    return (is_const(a) and isinstance(a[1], str)) or a[0] == 'fmt'


def fmt_call(a):
    if a[0] == 'call' and a[1] == 'format' and len(a[2]) == 2 and is_const(a[2][1]) and a[2][1][1] not in ('', 's', 'd'):
        return a[2][0]


def fparts(a):
    return list(a[1:]) if a[0] == 'fmt' else [a]


def mk_fmt(parts):
    out = []
    for p in parts:
        if p[0] == 'call' and p[1] == 'str' and len(p[2]) == 1:
            p = p[2][0]
        if p[0] == 'fmt':
            out.extend(p[1:])
        else:
            out.append(p)
    res = []
    for p in out:
        if is_const(p) and not isinstance(p[1], str):
            p = C(str(p[1]))
        if is_const(p) and res and is_const(res[-1]):
            res[-1] = C(res[-1][1] + p[1])
        elif is_const(p) and p[1] == '':
            continue
        else:
            res.append(p)
    if not res:
        return C('')
    if len(res) == 1 and is_const(res[0]):
        return res[0]
    return ('fmt',) + tuple(res)


# ------------------------------------------------------------------ renaming
def rewrite(v, f):
    r = f(v)
    if r is not None:
        return r
    if isinstance(v, tuple):
        return tuple(rewrite(x, f) if isinstance(x, tuple) else x for x in v)
    return v


def anon(v):
    """erase ids that carry no meaning across the two programs"""
    table = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        h = x[0]
        if h == 'obj' and len(x) == 2 or h == 'site' or h == 'LID':
            if x not in table:
                table[x] = (h, 'k%d' % len(table))
            return table[x]
        if h == 'exc':
            key = ('exc', x[1])
            if key not in table:
                table[key] = 'k%d' % len(table)
            return ('exc', table[key]) + x[2:]
        if h == 'excval':
            key = ('exc', x[1])
            if key not in table:
                table[key] = 'k%d' % len(table)
            return ('excval', table[key]) + x[2:]
        if h == 'unk' and len(x) >= 2:
            return ('unk',) + x[1:-1]
        if h == 'lv' or h == 'lout':
            return (h, go(x[1])) + (('v',) if isinstance(x[2], str) else (go(x[2]),)) + tuple(go(y) for y in x[3:])
        return tuple(go(y) for y in x)
    return go(v)


# ------------------------------------------------------------------ comparison
class Cmp:
    outer = ()           # the locals that a compared region takes from the function around it
    visible = None       # package functions that do something observable (unknown: all)
    filled = ()          # those of them that are containers of the function
    def __init__(self, ref, cur, refprog, curprog, pmap, known_attrs, deadline, ref_funcs, cur_funcs):
        self.ref, self.cur = ref, cur
        self.refprog, self.curprog = refprog, curprog
        self.pmap = pmap
        self.known_attrs = known_attrs
        self.deadline = deadline
        self.ref_funcs, self.cur_funcs = ref_funcs, cur_funcs
        self.objmap, self.objinv = {}, {}
        self.memo = {}
        self.want_inline = set()
        self.steps = 0
        self.undermap = {}
        self.dead = []
        self.use_dead = True
        self.bold = False
        self.ctx_loops = ()
        self._nd = {}

    # -- result algebra: ('EQ',()) ('DIFF',(pairs)) ('UNK',())
    def both(self, rs):
        pairs = []
        st = EQ
        for r in rs:
            if r[0] == UNK or r[0] == 'SWAP' and not self.bold:
                st = UNK
            elif r[0] in (DIFF, 'SWAP'):
                pairs.extend(r[1])
                if st != UNK:
                    st = DIFF
        return (st, tuple(dict.fromkeys(pairs)))

    def tick(self):
        self.steps += 1
        if self.steps % 256 == 0 and time.time() > self.deadline:
            raise Budget('time')

    def cmp(self, a, b):
        """a: reference term, b: current term"""
        if a == b:
            return (EQ, ())
        self.tick()
        key = (a, b, self.ctx_loops) if self.use_dead else (a, b, 0)
        if key in self.memo:
            r = self.memo[key]
            if r is not None:
                return r
            return (UNK, ())
        self.memo[key] = None
        r = self._cmp(a, b)
        if r[0] == UNK and isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str) and isinstance(b[0], str) \
                and arith_differ(self, a, b):
            r = self.pair(a, b)
        if r[0] == UNK and isinstance(a, tuple) and isinstance(b, tuple) and (b == opposite(a) or a == opposite(b)):
            r = self.pair(a, b)
        if r[0] == UNK and isinstance(a, tuple) and isinstance(b, tuple) and (given_order(a, b) or given_order(b, a)):
            r = self.pair(a, b)
        if r[0] == UNK and self.bold and isinstance(a, tuple) and isinstance(b, tuple) and a and b \
                and isinstance(a[0], str) and isinstance(b[0], str) and bolder(self, a, b):
            r = self.pair(a, b)
        if r[0] == DIFF and self.outer and isinstance(a, tuple) and isinstance(b, tuple):
            # a container filled outside of the compared region holds what the function put there
            x, y = self.sized_from(a), self.sized_from(b)
            for p, q in ((x, y), (y, x)):
                if p[:1] == ('sym',) and p[1] in self.outer and q[:1] in (('list',), ('set',), ('dict',)) and len(q) > 1 and q[1]:
                    r = (UNK, ())
        self.memo[key] = r
        return r

    def sized_from(self, v):
        while isinstance(v, tuple) and v and v[0] == 'call' and v[1] in ('sorted', 'list', 'set', 'tuple') and len(v[2]) == 1 and not v[3]:
            v = v[2][0]
        return v

    def same(self, a, b):
        return self.cmp(a, b)[0] == EQ

    def pair(self, a, b, why=''):
        if looked_up(a, b) or looked_up(b, a):
            return (UNK, ())
        return (DIFF, ((a, b),))

    def ident(self, a, b):
        if self.objmap.get(a) == b:
            return (EQ, ())
        if a in self.objmap or b in self.objinv:
            return (UNK, ())
        self.objmap[a] = b
        self.objinv[b] = a
        self.memo = {k: v for k, v in self.memo.items() if v is not None and v[0] != UNK}
        return (EQ, ())

    def _cmp(self, a, b):
        if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
            return (EQ, ()) if a == b else (UNK, ())
        ha, hb = a[0], b[0]
        # identities
        if ha == hb == 'obj' and len(a) == 2 and len(b) == 2:
            return self.ident(a, b)
        if ha == hb == 'site':
            return self.ident(a, b)
        if ha == hb == 'LID':
            return (UNK, ())
        if ha == hb == 'unk':
            if a[1:-1] == b[1:-1]:
                return self.ident(a, b)
            return (UNK, ())
        if ha == hb == 'excval':
            return (EQ, ()) if a[2:] == b[2:] else (UNK, ())
        if ha == hb == 'raise' and a[1] != b[1]:
            return self.pair(a, b)
        if ha in ('unk', 'unkc', 'looped', 'inloop', 'missing', 'unbound', 'deleted') or \
                hb in ('unk', 'unkc', 'looped', 'inloop', 'missing', 'unbound', 'deleted'):
            if ha == hb and len(a) == len(b):
                r = self.both([self.cmp(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else
                               ((EQ, ()) if x == y else (UNK, ())) for x, y in zip(a[1:], b[1:])])
                return r
            return (UNK, ())
        if ha == 'const' and hb == 'const':
            x, y = a[1], b[1]
            if x == y and isinstance(x, bool) == isinstance(y, bool):
                return (EQ, ())
            if isinstance(x, str) and isinstance(y, str) and x.strip() == '' and y.strip() == '' and x == y:
                return (EQ, ())
            return self.pair(a, b)
        # booleans
        if is_bool(a) and is_bool(b):
            return self.formulas(a, b)
        if ha == 'ite' or hb == 'ite':
            n = tuple_width(a)
            if n is not None and n > 1 and n == tuple_width(b):
                # choices between tuples: component by component
                return self.both([self.cmp(project(a, i), project(b, i)) for i in range(1, n)])
            return self.decide(a, b)
        # arithmetic
        if a == NONE and self.numeric(b) or b == NONE and self.numeric(a):
            return self.pair(a, b)
        if self.numeric(a) or self.numeric(b):
            r = self.arith(a, b)
            if r is not None:
                return r
        # wrappers
        r = self.wrappers(a, b)
        if r is not None:
            return r
        fa, fb = fmt_call(a), fmt_call(b)
        if bool(fa) != bool(fb):
            # a value formatted to some precision or width against the value itself
            if self.cmp(fa or a, fb or b)[0] == EQ:
                return self.pair(a, b)
            return (UNK, ())
        if ha == 'sym' and hb == 'sym':
            return self.pair(a, b)
        if {ha, hb} <= {'elem', 'pos', 'lv', 'sym', 'const', 'len', 'lout', 'lamarg'} and ha != hb:
            if 'lout' in (ha, hb) or 'lv' in (ha, hb):
                # a loop-carried value against something else
                if {ha, hb} & {'const', 'sym'}:
                    return self.pair(a, b)
                return (UNK, ())
            return self.pair(a, b)
        if hb == 'lam' and ha in ('ext', 'builtin') or ha == 'lam' and hb in ('ext', 'builtin'):
            # a function against a one-argument lambda: as functions of that argument
            l, f = (a, b) if ha == 'lam' else (b, a)
            if len(l) == 3 and l[1] == 1 and isinstance(f[1], str):
                v = ('call', f[1], (('lamarg', 1, 0),), ())
                return self.cmp(l[2], v) if ha == 'lam' else self.cmp(v, l[2])
        if ha != hb:
            if is_const(a) or is_const(b):
                x = b if is_const(a) else a
                c = a if is_const(a) else b
                if x[0] in ('sym', 'elem', 'pos', 'len', 'attr', 'idx'):
                    return self.pair(a, b)
                if x[0] in ('rcall', 'new', 'mcall', 'call', 'list', 'dict', 'set', 'tuple', 'bin', 'fmt', 'join', 'neg'):
                    if c[1] is None or isinstance(c[1], (str, bool)) or x[0] in ('rcall', 'new', 'bin'):
                        return self.pair(a, b)
                return (UNK, ())
            if {ha, hb} <= {'sym', 'attr', 'elem', 'pos', 'idx'}:
                # x versus x.attr / x[i] / another input
                if 'idx' in (ha, hb) or 'attr' in (ha, hb):
                    big, small = (a, b) if ha in ('idx', 'attr') else (b, a)
                    base = big
                    while base[0] in ('idx', 'attr'):
                        base = base[1]
                    if base == small or base[0] in ('sym', 'elem') and small[0] in ('sym', 'elem', 'pos'):
                        return self.pair(a, b)
                    return (UNK, ())
                return self.pair(a, b)
            return (UNK, ())
        # same head
        if ha == 'attr':
            if a[2] == b[2]:
                if a[2] in ('shape', 'dtype'):
                    x, y = a[1], b[1]
                    while x[0] == 'mcall' and x[2] in ('tocsr', 'tocoo', 'tocsc', 'copy', 'todense', 'toarray'):
                        x = x[1]
                    while y[0] == 'mcall' and y[2] in ('tocsr', 'tocoo', 'tocsc', 'copy', 'todense', 'toarray'):
                        y = y[1]
                    return self.cmp(x, y)
                return self.cmp(a[1], b[1])
            r = self.cmp(a[1], b[1])
            if r[0] == EQ and a[2] in self.known_attrs and b[2] in self.known_attrs and not kindred(self, a[2], b[2]):
                return self.pair(a, b)
            return (UNK, ())
        if ha in ('elem', 'pos'):
            if a[2] == b[2]:
                return self.cmp(a[1], b[1])
            # elements of two different loops
            if a[2][0] == 'LID' and b[2][0] == 'LID' and a[2] in self.aligned and b[2] in self.aligned_cur:
                return self.pair(a, b)
            return (UNK, ())
        if ha == 'lv':
            if a[1] == b[1] and a[1] in self.aligned:
                return self.pair(a, b)
            return (UNK, ())
        if ha == 'lout':
            if a[1] == b[1] and a[2] == b[2]:
                return self.both([self.cmp(a[3], b[3]), self.cmp(a[4], b[4])])
            if a[1] == b[1]:
                return self.pair(a, b)
            return (UNK, ())
        if ha == 'call':
            return self.calls(a, b)
        if ha == 'mcall':
            return self.mcalls(a, b)
        if ha in ('rcall', 'new'):
            return self.rcalls(a, b)
        if ha in ('list', 'set', 'dict') and len(a) == 2 and len(b) == 2 and isinstance(a[1], tuple):
            return self.parts(a[1], b[1], ha)
        if ha == 'tuple':
            if len(a) != len(b):
                return self.pair(a, b)
            return self.both([self.cmp(x, y) for x, y in zip(a[1:], b[1:])])
        if ha == 'fmt':
            if len(a) == len(b):
                return self.both([self.cmp(x, y) for x, y in zip(a[1:], b[1:])])
            return self.fmts(a, b)
        if ha == 'idx':
            return self.both([self.cmp(a[1], b[1]), self.cmp(a[2], b[2])])
        if ha == 'slice':
            return self.both([self.cmp(x, y) for x, y in zip(a[1:], b[1:])])
        if ha == 'range':
            return self.both([self.cmp(x, y) for x, y in zip(a[1:], b[1:])])
        if ha == 'len' or ha == 'neg':
            return self.cmp(a[1], b[1])
        if ha == 'bin':
            if a[1] == b[1]:
                r = self.both([self.cmp(a[2], b[2]), self.cmp(a[3], b[3])])
                if r[0] != EQ and a[1] in '+*&|':
                    r2 = self.both([self.cmp(a[2], b[3]), self.cmp(a[3], b[2])])
                    if r2[0] == EQ and a[1] == '+' and not any(self.number(x) for x in (a[2], a[3], b[2], b[3])):
                        # joining sequences is not commutative
                        if any(self.sequence(x) for x in (a[2], a[3])) and r[0] == DIFF:
                            return r
                        return (UNK, ())
                    if r2[0] == EQ:
                        return r2
                    if len(r2[1]) < len(r[1]) and r2[0] == DIFF:
                        return r2
                return r
            r = self.both([self.cmp(a[2], b[2]), self.cmp(a[3], b[3])])
            if r[0] == EQ:
                return self.pair(a, b)
            return (UNK, ())
        if ha == 'lam':
            if len(a) == len(b) == 3 and a[1] == b[1]:
                return self.cmp(a[2], b[2])
            return (UNK, ())
        if ha == 'm':
            if a[1] != b[1]:
                # the variable of the comprehension has no meaning outside it
                x, y = a[1], b[1]
                if contains(a[3:], y) or contains(b[3:], x) or contains_any((a, b), lambda t: t[0] in ('lv', 'lout', 'looped') and t[1] in (x, y)):
                    return (UNK, ())
                b = rewrite(b, lambda t: x if t == y else None)
            return self.both([self.cmp(a[2], b[2]) if isinstance(a[2], tuple) and isinstance(b[2], tuple) else (EQ, ()),
                              self.parts(a[3], b[3], 'list'),
                              (EQ, ()) if a[4] == b[4] else (UNK, ())])
        if ha == 'ifp':
            return self.ifparts(a, b)
        if ha in ('i', 's'):
            return self.cmp(a[1], b[1])
        if ha in ('kv', 'kvdef'):
            return self.both([self.cmp(a[1], b[1]), self.cmp(a[2], b[2])])
        if ha == 'kvaug':
            if a[1] != b[1]:
                return self.pair(a, b)
            return self.both([self.cmp(a[2], b[2]), self.cmp(a[3], b[3])])
        if ha in ('ext', 'func', 'class', 'builtin', 'module', 'bound', 'global'):
            if ha == 'func' and a[1] in self.ref_funcs and b[1] in self.cur_funcs and b[1] in self.ref_funcs:
                return self.pair(a, b)
            if ha == 'class':
                return self.pair(a, b)
            if ha in ('ext', 'builtin'):
                return self.pair(a, b) if self.family(a[1], b[1]) else (UNK, ())
            if ha == 'bound':
                r = self.cmp(a[1], b[1])
                if a[2] == b[2]:
                    return r
                if r[0] == EQ and a[2] in self.ref_funcs and b[2] in self.ref_funcs:
                    return self.pair(a, b)
            return (UNK, ())
        if ha == 'join':
            return self.both([self.cmp(a[1], b[1]), self.cmp(a[2], b[2])])
        if len(a) == len(b):
            rs = []
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    rs.append(self.cmp(x, y))
                else:
                    rs.append((EQ, ()) if x == y else (UNK, ()))
            return self.both(rs)
        return (UNK, ())

    # -- pieces
    def family(self, x, y):
        x, y = str(x).split('.')[-1], str(y).split('.')[-1]
        if x == y:
            return False
        return any(x in f and y in f for f in FAMILIES)

    def numeric(self, a):
        return a[0] in ('bin', 'neg') and (a[0] == 'neg' or a[1] in '+-*/')

    def mono(self, v):
        """(coefficient, {factor: exponent})"""
        if v[0] == 'bin' and v[1] in '+-' or v[0] == 'neg' and v[1][0] == 'bin' and v[1][1] in '+-':
            l = lin(v)
            if l and len(l) > 1:
                # one sign for x - y and y - x
                first = min((k for k in l if k is not None), key=repr)
                if l[first] < 0:
                    return -1, {mk_lin({k: -c for k, c in l.items()}): 1}
                return 1, {mk_lin(l): 1}
        if is_const(v) and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
            return v[1], {}
        if v[0] == 'neg':
            c, f = self.mono(v[1])
            return -c, f
        if v[0] == 'bin' and v[1] == '*':
            c1, f1 = self.mono(v[2])
            c2, f2 = self.mono(v[3])
            f = dict(f1)
            for k, e in f2.items():
                f[k] = f.get(k, 0) + e
            return c1 * c2, {k: e for k, e in f.items() if e}
        if v[0] == 'bin' and v[1] == '/':
            c1, f1 = self.mono(v[2])
            c2, f2 = self.mono(v[3])
            f = dict(f1)
            for k, e in f2.items():
                f[k] = f.get(k, 0) - e
            if c2 == 0:
                return 1, {v: 1}
            return c1 / c2, {k: e for k, e in f.items() if e}
        return 1, {v: 1}

    def arith(self, a, b):
        # sums
        if (a[0] == 'bin' and a[1] in '+-') or (b[0] == 'bin' and b[1] in '+-') or a[0] == 'neg' or b[0] == 'neg':
            x, y = lin(a), lin(b)
            if x is None or y is None:
                return None
            if a[0] == 'bin' and b[0] == 'bin' and a[1] == '+' and b[1] == '+' and not self.number(a) and not self.number(b) \
                    and any(self.sequence(k) for d in (x, y) for k in d if k is not None):
                return None     # joined sequences: the order matters
            return self.combine(x, y, a, b)
        if (a[0] == 'bin' and a[1] in '*/') or (b[0] == 'bin' and b[1] in '*/'):
            c1, f1 = self.mono(a)
            c2, f2 = self.mono(b)
            x, y = dict(f1), dict(f2)
            if c1 != c2:
                if x == y:
                    return self.pair(a, b)
                r = self.combine(x, y, a, b)
                return self.both([r, self.pair(a, b)]) if r[0] != UNK else r
            return self.combine(x, y, a, b)
        return None

    def combine(self, x, y, a, b):
        """two {term: coefficient} maps"""
        x, y = dict(x), dict(y)
        # unify EQ keys
        kx = [k for k in x if k is not None and k not in y]
        ky = [k for k in y if k is not None and k not in x]
        for k in list(kx):
            for l in list(ky):
                if self.cmp(k, l)[0] == EQ:
                    y[k] = y.pop(l)
                    kx.remove(k)
                    ky.remove(l)
                    break
        if not kx and not ky:
            if {k: v for k, v in x.items() if v} == {k: v for k, v in y.items() if v}:
                return (EQ, ())
            return self.pair(a, b)
        if len(kx) == len(ky) and all(x[k] == y[k] for k in set(x) & set(y)) and set(x) - set(kx) == set(y) - set(ky):
            # pair leftovers
            if len(kx) == 1:
                if x[kx[0]] == y[ky[0]]:
                    return self.cmp(kx[0], ky[0])
                r = self.cmp(kx[0], ky[0])
                return r if r[0] == UNK else self.pair(a, b)
            if len(kx) <= 3:
                best = None
                for perm in itertools.permutations(ky):
                    if any(x[k] != y[l] for k, l in zip(kx, perm)):
                        continue
                    r = self.both([self.cmp(k, l) for k, l in zip(kx, perm)])
                    if r[0] == EQ:
                        return r
                    if best is None or (r[0] == DIFF and (best[0] == UNK or len(r[1]) < len(best[1]))):
                        best = r
                if best is not None:
                    return best
        # one side has extra/missing summands over inputs
        if (not kx or not ky) and all(self.simple(k) for k in kx + ky):
            common = set(x) & set(y) - {None}
            if all(x[k] == y[k] for k in common) or not common:
                return self.pair(a, b)
        return (UNK, ())

    def simple(self, v):
        return not contains_any(v, lambda t: t[0] in ('lv', 'lout', 'unk', 'brk', 'call', 'acc'))

    def wrappers(self, a, b):
        for x, y, sw in ((a, b, False), (b, a, True)):
            # f(y) against y
            if x[0] == 'call' and isinstance(x[1], str) and len(x[2]) >= 1 and not (y[0] == 'call' and y[1] == x[1]):
                if x[1] in ORDER_WRAPPERS or x[1] in COPY_WRAPPERS or x[1] in ('abs', 'set', 'frozenset', 'round', 'int', 'float',
                                                                              'numpy.abs', 'math.floor', 'math.ceil',
                                                                              'numpy.sqrt', 'math.sqrt', 'numpy.log', 'math.log'):
                    inner = x[2][0]
                    y2 = y
                    if x[1] in ORDER_WRAPPERS and y[0] == 'call' and y[1] in ('list', 'tuple') and len(y[2]) == 1:
                        y2 = y[2][0]
                    r = self.cmp(inner, y2) if not sw else self.cmp(y2, inner)
                    if r[0] == EQ:
                        if x[1] in ('int', 'float', 'round') and False:
                            return (UNK, ())
                        return self.pair(a, b)
            if x[0] == 'mcall' and x[2] in ('copy', 'deepcopy', 'transpose', 'strip', 'lower', 'upper') and not x[3]:
                if not (y[0] == 'mcall' and y[2] == x[2]):
                    r = self.cmp(x[1], y) if not sw else self.cmp(y, x[1])
                    if r[0] == EQ:
                        return self.pair(a, b)
            if x[0] == 'idx' and x[2] == ('slice', NONE, NONE, NONE) and y[0] != 'idx':
                r = self.cmp(x[1], y) if not sw else self.cmp(y, x[1])
                if r[0] == EQ:
                    return self.pair(a, b)
            if x[0] == 'idx' and x[2][0] == 'slice' and y[0] not in ('idx', 'call', 'mcall'):
                r = self.cmp(x[1], y) if not sw else self.cmp(y, x[1])
                if r[0] == EQ:
                    return self.pair(a, b)
            if x[0] == 'list' and len(x) == 2 and len(x[1]) == 1 and x[1][0][0] == 's' and y[0] != 'list':
                # [*y] / list(y) copy
                pass
        return None

    def calls(self, a, b):
        na, nb = a[1], b[1]
        if isinstance(na, tuple) or isinstance(nb, tuple):
            if isinstance(na, tuple) and isinstance(nb, tuple):
                return self.both([self.cmp(na, nb), self.arglist(a[2], b[2], a[3], b[3], a, b)])
            return (UNK, ())
        if na != nb:
            ca, cb = na.split('.')[-1], nb.split('.')[-1]
            r = self.arglist(a[2], b[2], a[3], b[3], a, b)
            if r[0] == EQ:
                if ca == cb:
                    return (UNK, ())
                if na in CONTAINERS and nb in CONTAINERS:
                    s = {na, nb} & {'set', 'frozenset'}
                    return self.pair(a, b) if len(s) == 1 else (UNK, ())
                if {na, nb} & {'sorted'} and {na, nb} & {'list', 'tuple', 'set', 'reversed'}:
                    return self.pair(a, b)
                if self.family(na, nb):
                    return self.pair(a, b)
            return (UNK, ())
        r = self.arglist(a[2], b[2], a[3], b[3], a, b)
        if len(a) > 4 or len(b) > 4:
            rs = [r]
            for x, y in zip(a[4:], b[4:]):
                rs.append(self.cmp(x, y))
            return self.both(rs)
        return r

    def arglist(self, pa, pb, ka, kb, a, b):
        ka, kb = dict(ka), dict(kb)
        rs = []
        sig = EXT_SIG.get(a[1]) if a[0] == 'call' and isinstance(a[1], str) and a[1] == b[1] else EXT_MSIG.get(a[2]) \
            if a[0] == 'mcall' and b[0] == 'mcall' and a[2] == b[2] else None
        if sig is not None and (len(pa), set(ka)) != (len(pb), set(kb)):
            ca, cb = canon_args(sig, pa, ka), canon_args(sig, pb, kb)
            if ca is not None and cb is not None:
                if set(ca) == set(cb):
                    return self.both([self.cmp(ca[k], cb[k]) for k in ca])
                ka, kb, pa, pb = ca, cb, (), ()
        if len(pa) == len(pb):
            for x, y in zip(pa, pb):
                rs.append(self.cmp(x, y))
        else:
            d = self.position_defaults(a, max(len(pa), len(pb))) if a[0] == b[0] == 'mcall' and not ka and not kb else None
            if d is not None:
                n = min(len(pa), len(pb))
                rest = (pa if len(pa) > n else pb)[n:]
                if d[n:] and all(x is not None and x == y for x, y in zip(d[n:], rest)):
                    return self.both([self.cmp(x, y) for x, y in zip(pa, pb)])
            n = min(len(pa), len(pb))
            for x, y in zip(pa[:n], pb[:n]):
                rs.append(self.cmp(x, y))
            extra = (len(pa) + len(ka)) - (len(pb) + len(kb))
            if extra == 0:
                # positional <-> keyword spelling of the same argument
                xs = list(pa[n:]) + [v for k, v in sorted(ka.items()) if k not in kb]
                ys = list(pb[n:]) + [v for k, v in sorted(kb.items()) if k not in ka]
                if len(xs) == len(ys) and all(self.cmp(x, y)[0] == EQ for x, y in zip(xs, ys)):
                    for k in set(ka) & set(kb):
                        rs.append(self.cmp(ka[k], kb[k]))
                    return self.both(rs)
                return (UNK, ())
            if extra > 0 and not [r for r in rs if r[0] == UNK] and set(kb) <= set(ka):
                rest = pa[n:]
                if all(self.nondefault(x) for x in rest) and len(pa) > len(pb):
                    rs.append(self.pair(a, b))
                    for k in set(ka) & set(kb):
                        rs.append(self.cmp(ka[k], kb[k]))
                    return self.both(rs)
            return (UNK, ())
        for k in sorted(set(ka) | set(kb)):
            if k in ka and k in kb:
                rs.append(self.cmp(ka[k], kb[k]))
            elif a[0] in ('call', 'mcall') and self.name_default(a, k) is not None and (ka.get(k) or kb.get(k))[0] == 'const':
                d = self.name_default(a, k)
                rs.append((EQ, ()) if (ka.get(k) or kb.get(k)) == d else self.pair(a, b))
            elif k in ka:
                rs.append(self.pair(a, b) if self.nondefault(ka[k]) and not k.startswith('**') else (UNK, ()))
            else:
                rs.append((UNK, ()))
        return self.both(rs)

    def name_default(self, call, k):
        """the one literal default of option k in every package method of that name; None if there is no such"""
        if call[0] == 'call' or call[0] == 'mcall' and call[2] in EXT_MDEFAULT:
            d = EXT_DEFAULT.get(call[1]) if call[0] == 'call' else EXT_MDEFAULT[call[2]]
            return C(d[k]) if d and k in d else None
        if call[0] != 'mcall' or k.startswith('**') or call[2] in EXTERNAL_TOO:
            return None
        key = ('nd', call[2], k)
        if key not in self._nd:
            vals = set()
            for f in self.refprog.funcs:
                if f.name == call[2] and f.cls is not None and k in f.params() + f.kwonly():
                    d = f.defaults().get(k)
                    vals.add(C(d.value) if isinstance(d, ast.Constant) else None)
            self._nd[key] = vals.pop() if len(vals) == 1 else None
        return self._nd[key]

    def position_defaults(self, call, n):
        """the literal defaults of the first n arguments of the package methods of that name, if they agree on them"""
        if call[2] in EXTERNAL_TOO:
            return None
        key = ('pd', call[2], n)
        if key not in self._nd:
            vals = set()
            for f in self.refprog.funcs:
                if f.name == call[2] and f.cls is not None:
                    ps = f.params()[0 if f.is_static else 1:]
                    df = f.defaults()
                    vals.add(tuple(C(df[p].value) if isinstance(df.get(p), ast.Constant) else None for p in ps[:n]) if len(ps) >= n else None)
            self._nd[key] = vals.pop() if len(vals) == 1 else None
        return self._nd[key]

    def nondefault(self, v):
        return v not in (NONE, C(0), C(False), C('')) and v[0] != 'missing' or v == C(True)

    def mcalls(self, a, b):
        if a[2] != b[2]:
            r = self.both([self.cmp(a[1], b[1]), self.arglist(a[3], b[3], a[4], b[4], a, b)])
            if r[0] == EQ and self.family(a[2], b[2]):
                return self.pair(a, b)
            if r[0] == EQ and a[2] in self.known_attrs and b[2] in self.known_attrs and a[2] not in ('copy',) \
                    and self.inpkg(a[2]) and self.inpkg(b[2]):
                return self.pair(a, b)
            return (UNK, ())
        rs = [self.cmp(a[1], b[1]), self.arglist(a[3], b[3], a[4], b[4], a, b)]
        for x, y in zip(a[5:], b[5:]):
            rs.append(self.cmp(x, y))
        return self.both(rs)

    def inpkg(self, name):
        return any(q.rsplit('.', 1)[-1] == name for q in self.ref_funcs)

    def rcalls(self, a, b):
        if a[1] != b[1]:
            self.want_inline.add(a[1])
            self.want_inline.add(b[1])
            ra = dict(a[2])
            rb = dict(b[2])
            if a[0] == 'rcall' and b[1] in self.ref_funcs and set(ra) == set(rb) and a[1] in self.cur_funcs:
                r = self.both([self.cmp(ra[k], rb[k]) for k in ra])
                if r[0] == EQ:
                    return ('SWAP', ((a, b),))
            return (UNK, ())
        ra, rb = dict(a[2]), dict(b[2])
        rs = []
        for k in sorted(set(ra) | set(rb), key=str):
            if k in ra and k in rb:
                rs.append(self.cmp(ra[k], rb[k]))
            elif k in ra:
                rs.append(self.pair(a, b) if self.nondefault(ra[k]) else (UNK, ()))
            else:
                rs.append((UNK, ()))
        if any(r[0] == 'SWAP' for r in rs):
            rs = [(UNK, ()) if r[0] == 'SWAP' else r for r in rs]
        return self.both(rs)

    def parts(self, pa, pb, kind):
        pa, pb = list(pa), list(pb)
        if len(pa) == len(pb):
            rs = [self.cmp(x, y) for x, y in zip(pa, pb)]
            r = self.both(rs)
            if r[0] == EQ:
                return r
            if kind in ('set', 'dict'):
                # order free
                left = list(pb)
                rest = []
                for x in pa:
                    for y in left:
                        if self.cmp(x, y)[0] == EQ:
                            left.remove(y)
                            break
                    else:
                        rest.append(x)
                if not rest and kind == 'dict' and not all(x[0] == 'kv' for x in pa):
                    # mappings merged in another order: the last one wins
                    if all(x[0] in ('it', 's', 'kv', 'for', 'm') for x in pa):
                        return self.pair((kind, tuple(pa)), (kind, tuple(pb)))
                    return (UNK, ())
                if not rest:
                    return (EQ, ())
                if len(rest) == len(left) == 1:
                    return self.cmp(rest[0], left[0])
            return r
        # missing / extra literal element
        big, small, sw = (pa, pb, False) if len(pa) > len(pb) else (pb, pa, True)
        j = 0
        unmatched = []
        for x in big:
            if j < len(small) and (self.cmp(x, small[j]) if not sw else self.cmp(small[j], x))[0] == EQ:
                j += 1
            else:
                unmatched.append(x)
        if j == len(small) and all(x[0] in ('i', 'kv') for x in unmatched):
            return self.pair((kind, tuple(pa)), (kind, tuple(pb)))
        return (UNK, ())

    def ifparts(self, a, b):
        a, b = flat_if(a), flat_if(b)
        c = self.formulas(a[1], b[1])
        r1 = self.parts(a[2], b[2], 'list')
        r2 = self.parts(a[3], b[3], 'list')
        r = self.both([c, r1, r2])
        if r[0] == EQ:
            return r
        s = self.both([self.formulas(mk_not(a[1]), b[1]), self.parts(a[3], b[2], 'list'), self.parts(a[2], b[3], 'list')])
        if s[0] == EQ:
            return s
        return r

    def fmts(self, a, b):
        xa, xb = list(a[1:]), list(b[1:])
        # same sequence of values, different literal text
        va = [x for x in xa if not is_const(x)]
        vb = [x for x in xb if not is_const(x)]
        if len(va) == len(vb):
            r = self.both([self.cmp(x, y) for x, y in zip(va, vb)])
            if r[0] == EQ:
                return self.pair(a, b)
            return (UNK, ())
        return (UNK, ())

    # -- formulas
    def atoms(self, f, out):
        if f[0] in ('and', 'or'):
            for x in f[1:]:
                self.atoms(x, out)
        elif f[0] == 'not':
            self.atoms(f[1], out)
        elif f[0] == 'const':
            pass
        elif f not in out:
            out.append(f)
        return out

    def atomvar(self, at):
        """-> (variable key term, evaluator spec)"""
        h = at[0]
        if h == 'cmp':
            op, p, q = at[1], at[2], at[3]
            if op == '==':
                for x, y in ((p, q), (q, p)):
                    if is_const(x) and not (isinstance(x[1], (int, float)) and not isinstance(x[1], bool)):
                        return ('val', y), ('eq', x[1])
                    if x[0] == 'ext' and x[1].split('.')[-1].isupper() and y[0] != 'ext':
                        # named constants of a library are taken to be distinct
                        return ('val', y), ('eq', x)
            x, y = lin(p), lin(q)
            if x is not None and y is not None and not strish(p) and not strish(q):
                d = dict(x)
                for k, c in y.items():
                    d[k] = d.get(k, 0) - c
                d = {k: c for k, c in d.items() if c}
                k0 = d.pop(None, 0)
                if d:
                    first = min(d, key=repr)
                    lead = d[first]
                    sym = tuple(sorted(((k, c / lead) for k, c in d.items()), key=repr))
                    # sum = lead*S + k0 (op) 0
                    t = -k0 / lead
                    if len(sym) == 1 and sym[0][1] == 1:
                        var = ('val', sym[0][0])
                    else:
                        var = ('sum', sym)
                    if op == '==':
                        return var, ('neq', t)     # numeric equality
                    if lead > 0:
                        return var, ('lt', t)
                    return var, ('gt', t)
            return ('atom', at), ('is',)
        if h == 'isnone':
            return ('val', at[1]), ('none',)
        if h == 'truthy':
            return ('val', at[1]), ('true',)
        if h == 'exc':
            return ('atom', ('exc', at[1]) + tuple(at[2:])), ('is',)
        return ('atom', at), ('is',)

    def formulas(self, fa, fb, want_pairs=True):
        if fa == fb:
            return (EQ, ())
        A, B = self.atoms(fa, []), self.atoms(fb, [])
        if len(A) + len(B) > 14:
            return (UNK, ())
        va = {at: self.atomvar(at) for at in A}
        vb = {at: self.atomvar(at) for at in B}
        ka = list(dict.fromkeys(v[0] for v in va.values()))
        kb = list(dict.fromkeys(v[0] for v in vb.values()))
        ren = {}
        ua = [k for k in ka if k not in kb]
        ub = [k for k in kb if k not in ka]
        for k in list(ua):
            for l in list(ub):
                if self.varcmp(k, l)[0] == EQ:
                    ren[l] = k
                    ua.remove(k)
                    ub.remove(l)
                    break
        vb2 = {at: (ren.get(k, k), s) for at, (k, s) in vb.items()}
        r = self.tt(fa, va, fb, vb2)
        if r is None:
            return (UNK, ())
        if r == EQ:
            return (EQ, ())
        if r == 'soft':
            return (EQ, ())
        if not ua and not ub:
            if r == UNK:
                return (UNK, ())
            return self.pair(fa, fb)
        if len(ua) == len(ub) and len(ua) <= 3:
            best = None
            for perm in itertools.permutations(ub):
                ren2 = dict(zip(perm, ua))
                vb3 = {at: (ren2.get(k, k), s) for at, (k, s) in vb2.items()}
                t = self.tt(fa, va, fb, vb3)
                rr = self.both([self.varcmp(k, l) for k, l in zip(ua, perm)])
                if t in (EQ, 'soft'):
                    cand = rr
                elif t == DIFF and rr[0] == DIFF:
                    cand = (DIFF, tuple(dict.fromkeys(rr[1] + ((fa, fb),))))
                else:
                    cand = (UNK, ())
                if cand[0] == EQ:
                    return cand
                if best is None or (cand[0] == DIFF and (best[0] != DIFF or len(cand[1]) < len(best[1]))):
                    best = cand
            if best is not None and best[0] == DIFF:
                return best
            if self.bold and len(ua) == 1 and boldvars(self, ua[0], ub[0]):
                return self.pair(fa, fb)
            return (UNK, ())
        if self.bold and ua and ub and interval(ua, ub):
            return self.pair(fa, fb)
        if not ua or not ub:
            # a condition was dropped or added on one side
            extra = ua or ub
            allv = ka + kb
            for k in extra:
                if k[0] == 'atom' and k[1][0] in ('exc', 'looped', 'unk', 'brk'):
                    return (UNK, ())
                if contains_any(k, lambda t: t[0] in ('unk', 'looped', 'brk')):
                    return (UNK, ())
                if k[0] == 'val':
                    base = k[1]
                    if base[0] in ('idx', 'call', 'mcall', 'rcall'):
                        for o in allv:
                            if base[0] == 'idx' and is_const(base[2]) and (
                                    o == ('val', base[1]) or o == ('val', ('len', base[1]))
                                    or o[0] == 'sum' and all(t == ('len', base[1]) for t, _ in o[1])):
                                continue        # how many there are says nothing about the one
                            if o is not k and o != k and (contains(o, base[1]) if isinstance(base[1], tuple) else False):
                                return (UNK, ())
                if k[0] == 'atom' and k[1][0] == 'in':
                    base = k[1][2]
                    for o in allv:
                        if o != k and contains(o, base):
                            return (UNK, ())
            if r == UNK:
                return (UNK, ())
            return self.pair(fa, fb)
        return (UNK, ())

    def varcmp(self, k, l):
        if k[0] != l[0]:
            return (UNK, ())
        if k[0] == 'sum':
            return self.combine(dict(k[1]), dict(l[1]), ('sumterm',) + k[1:], ('sumterm',) + l[1:])
        if k[0] == 'atom' and k[1][0] == 'exc':
            if k[1][2:] == l[1][2:]:
                return self.ident(('exc', k[1][1]), ('exc', l[1][1]))
            return (UNK, ())
        if k[0] == 'atom':
            if k[1][0] == 'cmp' and l[1][0] == 'cmp' and k[1][1] == l[1][1] == '==':
                r = self.both([self.cmp(k[1][2], l[1][2]), self.cmp(k[1][3], l[1][3])])
                if r[0] == EQ:
                    return r
                r2 = self.both([self.cmp(k[1][2], l[1][3]), self.cmp(k[1][3], l[1][2])])
                return r2 if r2[0] == EQ else r
            if k[1][0] == l[1][0] and len(k[1]) == len(l[1]):
                return self.both([self.cmp(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else
                                  ((EQ, ()) if x == y else (UNK, ())) for x, y in zip(k[1][1:], l[1][1:])])
            return (UNK, ())
        return self.cmp(k[1], l[1])

    def dead_for(self, specs):
        """reviewed conditions under which the function raises, over the variables at hand"""
        if not self.use_dead:
            return []
        out = []
        extra = set()
        for f, vm, loops, elem in self.dead:
            if loops and not elem and self.ctx_loops[:len(loops)] != loops:
                continue
            ks = {k for k, _ in vm.values()}
            new = {k for k in ks if k not in specs}
            if not new or len(new) == 1 and len(ks) == 2 and len(specs) + len(extra | new) <= 6:
                extra |= new
                out.append((f, vm))
        for f, vm in out:
            for at, (k, s) in vm.items():
                specs.setdefault(k, set()).add(s)
        return out

    def tt(self, fa, va, fb, vb):
        """EQ / 'soft' (equal over integers) / DIFF / UNK / None(too big)"""
        specs = {}
        for m in (va, vb):
            for at, (k, s) in m.items():
                specs.setdefault(k, set()).add(s)
        dead = self.dead_for(specs)
        doms = []
        keys = list(specs)
        for k in keys:
            ss = specs[k]
            if k[0] == 'atom':
                doms.append([('b', True), ('b', False)])
                continue
            nums = sorted({s[1] for s in ss if s[0] in ('lt', 'gt', 'neq')})
            strs = [s[1] for s in ss if s[0] == 'eq']
            d = []
            if nums:
                pts = set()
                for t in nums:
                    pts |= {t - 1, t, t + 1}
                if any(s[0] in ('true',) for s in ss):
                    pts |= {0, 1}
                for i, t in enumerate(nums[:-1]):
                    pts.add((t + nums[i + 1]) / 2)
                for p in sorted(pts):
                    d.append(('n', p))
                for t in nums:
                    if t == int(t):
                        d.append(('r', t + 0.5))
                        d.append(('r', t - 0.5))
                if any(s[0] == 'none' for s in ss):
                    d.append(('none',))
                if any(s[0] == 'true' for s in ss) and not self.intlike(k):
                    d += [('nn', True), ('nn', False)]      # not a number at all
            else:
                for c in strs:
                    d.append(('c', c))
                needfalsy = any(s[0] == 'true' for s in ss)
                neednone = any(s[0] == 'none' for s in ss)
                d.append(('other', True))
                if needfalsy or neednone:
                    d.append(('other', False))
                if neednone and not any(s[0] == 'eq' and s[1] is None for s in ss):
                    d.append(('none',))
            doms.append(d)
        n = 1
        for d in doms:
            n *= len(d)
            if n > 20000:
                return None
        # matched 'truthy vs isnone' on values that are never falsy-but-not-None
        soft = hard = falsy = False
        typed = typetests(keys)
        for combo in itertools.product(*doms):
            self.tick()
            env = dict(zip(keys, combo))
            if typed and clash(typed, env):
                continue
            x = self.evalf(fa, va, env)
            y = self.evalf(fb, vb, env)
            if x != y and any(self.evalf(f, vm, env) for f, vm in dead):
                continue
            if x != y:
                fr = [k for k, c in env.items() if c[0] == 'r' or (c[0] == 'n' and c[1] != int(c[1]))]
                if fr:
                    if all(self.intlike(k) for k in fr):
                        soft = True
                    elif all(not self.intlike(k) and self.floatlike(k) for k in fr):
                        hard = True
                        break
                    else:
                        falsy = True
                elif any(c[0] == 'nn' for c in combo):
                    falsy = True
                elif any(c == ('other', False) for c in combo) and self.softfalsy(env):
                    falsy = True
                else:
                    hard = True
                    break
        if hard:
            return DIFF
        if falsy:
            return UNK
        if soft:
            return 'soft'
        return EQ

    def intlike(self, k):
        if k[0] == 'sum':
            return all(self.intlike(('val', t)) and c == int(c) for t, c in k[1])
        if k[0] != 'val':
            return False
        t = k[1]
        h = t[0]
        if h in ('len', 'pos') or h == 'attr' and t[2] in ('exitcode', 'nnz', 'ndim', 'size', 'pid', 'lineno'):
            return True
        if h == 'const':
            return isinstance(t[1], int)
        if h == 'bin':
            return t[1] in ('+', '-', '*', '//', '%') and self.intlike(('val', t[2])) and self.intlike(('val', t[3]))
        if h == 'neg':
            return self.intlike(('val', t[1]))
        if h == 'ite':
            return self.intlike(('val', t[2])) and self.intlike(('val', t[3]))
        if h == 'elem':
            for s in (self.ref, self.cur):
                n = s.loops.get(t[2])
                if n is not None and n.k == 'loop' and n.iter[0] == 'range':
                    return True
            return t[1][0] == 'range'
        if h == 'call':
            return t[1] in ('len', 'int', 'round', 'math.floor', 'math.ceil', 'numpy.count_nonzero', 'ord', 'hash', 'id')
        if h == 'mcall':
            return t[2] in ('index', 'count', 'find', 'rfind', 'qsize', 'getnnz', 'number_of_nodes', 'number_of_edges')
        if h in ('lv', 'lout'):
            for s in (self.ref, self.cur):
                n = s.loops.get(t[1])
                if n is not None and t[2] in n.carry:
                    i, u, b = n.carry[t[2]]
                    if not (is_const(i) and isinstance(i[1], int)):
                        return False
                    return all(x is None or not contains_any(x, lambda y: y[0] == 'const' and isinstance(y[1], float) or
                                                             y[0] == 'bin' and y[1] == '/') for x in (u, b))
            return False
        if h == 'sym':
            d = self.default_of(t[1])
            if d is not None:
                return isinstance(d, int)
            return False
        if h == 'idx' and t[1][0] == 'attr' and t[1][2] == 'shape':
            return True
        if h == 'attr':
            return any(t[2].endswith(x) for x in ('span', '_idx', 'nnz', 'size', 'ndim', 'workers'))
        return False

    def number(self, t):
        if t[0] in ('len', 'pos', 'neg'):
            return True
        if t[0] == 'const':
            return isinstance(t[1], (int, float))
        if t[0] == 'bin':
            return t[1] in ('-', '*', '/', '//', '%', '**') or t[1] == '+' and (self.number(t[2]) or self.number(t[3]))
        if t[0] == 'call':
            return t[1] in ('len', 'int', 'float', 'sum', 'abs', 'round', 'math.log', 'math.sqrt') or str(t[1]).startswith('numpy.') \
                and t[1] not in ('numpy.array', 'numpy.asarray')
        if t[0] == 'mcall':
            return t[2] in ('sum', 'index', 'count', 'find', 'mean', 'dot', 'tocsr', 'tocoo', 'multiply', 'qsize', 'time')
        if t[0] == 'ite':
            return self.number(t[2]) or self.number(t[3])
        return self.intlike(('val', t)) or self.floatlike(('val', t))

    def sequence(self, t):
        if t[0] in ('list', 'tuple', 'fmt', 'join'):
            return True
        if t[0] == 'const':
            return isinstance(t[1], (str, bytes, tuple))
        if t[0] == 'attr':
            return t[2] in self.listattrs()
        if t[0] == 'call':
            return t[1] in ('list', 'sorted', 'str')
        if t[0] == 'mcall':
            return t[2] in ('tolist', 'split', 'strip', 'get_names')
        if t[0] == 'idx' and t[2][0] == 'slice':
            return self.sequence(t[1])
        return False

    def listattrs(self):
        """names of attributes the package uses as lists: .index(), .append(), .extend() of them, or a list is stored there"""
        m = self.ref.fi.mod
        if not hasattr(m, '_listattrs'):
            m._listattrs = list_attributes(m.tree)
        return m._listattrs

    def default_of(self, p):
        d = self.ref.fi.defaults().get(p)
        try:
            return ast.literal_eval(d) if d is not None else None
        except ValueError:
            return None

    def floatlike(self, k):
        if k[0] != 'val':
            return False
        t = k[1]
        if t[0] == 'sym':
            return isinstance(self.default_of(t[1]), float)
        return t[0] == 'bin' and t[1] == '/' or t[0] == 'call' and t[1] in ('float', 'math.log', 'math.sqrt', 'abs')

    def softfalsy(self, env):
        """difference shows only for a falsy value which is not None: decisive only for plain inputs"""
        for k, c in env.items():
            if c == ('other', False):
                b = k[1]
                if b[0] in ('sym', 'attr'):
                    return False
                if b[0] == 'elem' and b[1][0] == 'attr' and b[1][2] == 'data':
                    return False        # a number: zero is a value
        return True

    def evalf(self, f, vmap, env):
        h = f[0]
        if h == 'const':
            return bool(f[1])
        if h == 'not':
            return not self.evalf(f[1], vmap, env)
        if h == 'and':
            return all(self.evalf(x, vmap, env) for x in f[1:])
        if h == 'or':
            return any(self.evalf(x, vmap, env) for x in f[1:])
        k, s = vmap[f]
        c = env[k]
        if c[0] == 'b':
            return c[1]
        if s[0] == 'eq':
            return c[0] == 'c' and c[1] == s[1] and type(c[1]) is type(s[1])
        if s[0] == 'none':
            return c[0] == 'none' or (c[0] == 'c' and c[1] is None)
        if s[0] == 'true':
            if c[0] in ('other', 'nn'):
                return c[1]
            if c[0] == 'none':
                return False
            return bool(c[1])
        if c[0] not in ('n', 'r'):
            return False
        if s[0] == 'lt':
            return c[1] < s[1]
        if s[0] == 'gt':
            return c[1] > s[1]
        if s[0] == 'neq':
            return c[1] == s[1]
        return False

    # -- gated values
    def conds(self, v, out, depth=0):
        if v[0] == 'ite':
            for at in self.atoms(v[1], []):
                if at not in out:
                    out.append(at)
            self.conds(v[2], out, depth + 1)
            self.conds(v[3], out, depth + 1)
        return out

    def leaf(self, v, vmap, env):
        while v[0] == 'ite':
            v = v[2] if self.evalf(v[1], vmap, env) else v[3]
        return v

    def decide(self, a, b):
        a, b = minmax(a), minmax(b)
        A, B = self.conds(a, []), self.conds(b, [])
        if len(A) + len(B) > 12:
            return (UNK, ())
        va = {at: self.atomvar(at) for at in A}
        vb = {at: self.atomvar(at) for at in B}
        ka = list(dict.fromkeys(v[0] for v in va.values()))
        kb = list(dict.fromkeys(v[0] for v in vb.values()))
        ua = [k for k in ka if k not in kb]
        ub = [k for k in kb if k not in ka]
        ren = {}
        base = []
        for k in list(ua):
            for l in list(ub):
                if self.varcmp(k, l)[0] == EQ:
                    ren[l] = k
                    ua.remove(k)
                    ub.remove(l)
                    break
        if ua and ub:
            # the conditions themselves differ: same shape with differing condition
            if a[0] == 'ite' and b[0] == 'ite':
                rb = self.both([self.cmp(a[2], b[2]), self.cmp(a[3], b[3])])
                c = self.formulas(a[1], b[1])
                if rb[0] == EQ:
                    return c
                rs = self.both([self.cmp(a[2], b[3]), self.cmp(a[3], b[2])])
                if rs[0] == EQ:
                    return self.formulas(a[1], mk_not(b[1]))
                if c[0] == EQ:
                    return rb
                if c[0] == DIFF and rb[0] == DIFF and set(c[1]) == set(rb[1]):
                    return c
                # one shared pair explains both
                if c[0] == DIFF and rb[0] == DIFF:
                    return self.both([c, rb])
            return (UNK, ())
        vb = {at: (ren.get(k, k), s) for at, (k, s) in vb.items()}
        keys, doms, dead = self.domains(va, vb)
        specs = set(va.values()) | set(vb.values())
        n = 1
        for d in doms:
            n *= len(d)
            if n > 4000:
                return (UNK, ())
        points = {(at[3], at[2]) for at in A + B if at[:2] == ('cmp', '==') and is_const(at[2]) and isinstance(at[2][1], (int, float))}
        rs = []
        seen = set()
        between = False
        for combo in itertools.product(*doms):
            self.tick()
            env = dict(zip(keys, combo))
            if any(self.evalf(f, vm, env) for f, vm in dead):
                continue
            x = self.leaf(a, va, env)
            y = self.leaf(b, vb, env)
            if (x, y) in seen:
                continue
            if x[0] == 'unbound':
                continue
            if any(c[0] == 'r' for c in combo):
                # a broken number, where it is not known whether the value can be one
                if not between and self.cmp(x, y)[0] != EQ:
                    between = True
                continue
            if y[0] == 'unbound':
                seen.add((x, y))
                rs.append(self.pair(x, y))
                continue
            # specialise values fixed by the assignment
            x2 = self.special(self.settle(x, specs, env, {}), env, points)
            y2 = self.special(self.settle(y, specs, env, ren), env, points)
            seen.add((x, y))
            r = self.cmp(x2, y2)
            if r[0] == DIFF and self.fragile(x2, y2, env):
                r = (UNK, ())
            if r[0] == DIFF and any(c == ('other', False) for c in combo) and self.softfalsy(env):
                r = (UNK, ())
            rs.append(r)
        if between and not any(r[0] == DIFF for r in rs):
            return (UNK, ())
        return self.both(rs)

    def settle(self, v, specs, env, ren):
        """choices inside a value that the assignment decides as well"""
        if not contains_any(v, lambda t: t[0] == 'ite'):
            return v

        def f(t):
            if t and t[0] == 'ite' and len(t) == 4:
                vm = {}
                for at in self.atoms(t[1], []):
                    k, s = self.atomvar(at)
                    k = ren.get(k, k)
                    if k not in env or (k, s) not in specs:
                        return None
                    vm[at] = (k, s)
                return rewrite(t[2] if self.evalf(t[1], vm, env) else t[3], f)
            return None
        return rewrite(v, f)

    def domains(self, va, vb):
        specs = {}
        for m in (va, vb):
            for at, (k, s) in m.items():
                specs.setdefault(k, set()).add(s)
        dead = self.dead_for(specs)
        keys, doms = list(specs), []
        for k in keys:
            ss = specs[k]
            if k[0] == 'atom':
                doms.append([('b', True), ('b', False)])
                continue
            nums = sorted({s[1] for s in ss if s[0] in ('lt', 'gt', 'neq')})
            d = []
            if nums:
                pts = set()
                for t in nums:
                    pts |= {t - 1, t, t + 1}
                if any(s[0] == 'true' for s in ss):
                    pts |= {0, 1}
                d = [('n', p) for p in sorted(pts)]
                if not self.intlike(k):
                    kind = 'n' if self.floatlike(k) else 'r'
                    d += [(kind, p) for p in sorted({t + h for t in nums for h in (-0.5, 0.5)} - pts)]
                if any(s[0] == 'none' for s in ss):
                    d.append(('none',))
            else:
                d = [('c', s[1]) for s in ss if s[0] == 'eq'] + [('other', True)]
                if any(s[0] in ('true', 'none') for s in ss):
                    d.append(('other', False))
                if any(s[0] == 'none' for s in ss):
                    d.append(('none',))
            doms.append(d)
        return keys, doms, dead

    def special(self, v, env, points=()):
        if not isinstance(v, tuple):
            return v
        for k, c in env.items():
            if k[0] == 'val' and v == k[1]:
                if c[0] == 'none':
                    return NONE
                if c[0] == 'c':
                    return c[1] if isinstance(c[1], tuple) else C(c[1])
        if is_bool(v) and v[0] != 'const':
            # decided formulas
            at = self.atoms(v, [])
            m = {}
            for x in at:
                k, s = self.atomvar(x)
                if k not in env:
                    return v
                m[x] = (k, s)
            return C(self.evalf(v, m, env))
        for k, c in env.items():
            if k[0] == 'val' and k[1][0] == 'sym' and contains(v, k[1]):
                if c[0] in ('c', 'none'):
                    w = NONE if c[0] == 'none' else c[1] if isinstance(c[1], tuple) else C(c[1])
                else:
                    # a number that the conditions compare with
                    w = next((x for t, x in points if t == k[1] and c[0] == 'n' and x[1] == c[1]), None)
                    if w is None:
                        continue
                v = rewrite(v, lambda t: w if t == k[1] else None)
        return v

    def fragile(self, x, y, env):
        """const against a value the assumptions talk about"""
        for p, q in ((x, y), (y, x)):
            if is_const(p) and not is_const(q):
                for k, c in env.items():
                    if k[0] in ('val', 'sum') and contains(k, q) and c[0] in ('n', 'other'):
                        if c[0] == 'other' and c[1] is True and not p[1]:
                            continue
                        if c[0] == 'n' and is_const(p) and isinstance(p[1], (int, float)) and c[1] != p[1] and k[0] == 'val':
                            # a point sample away from the constant
                            continue
                        return True
                    if k[0] == 'atom' and contains(k, q):
                        return True
        return False

    # ------------------------------------------------------------ whole functions
    def align_loops(self):
        """match loops of the two summaries; returns lid renaming for cur"""
        ref, cur = self.ref, self.cur
        la, lb = list(ref.order), list(cur.order)
        live_a, live_b = live_lids(ref), live_lids(cur)
        la = [l for l in la if l in live_a]
        lb = [l for l in lb if l in live_b]
        ren = {}

        def key(s, l, r, withg):
            n = s.loops[l]
            t = n.iter if n.k == 'loop' else ('while', n.cond)
            if withg:
                t = (t,) + tuple(sorted(set(n.g), key=repr))
            t = rewrite(t, lambda x: ('LID', 'R%s' % (r[x],)) if x and x[0] == 'LID' and x in r else None)
            p = s.parent.get(l)
            return (n.k, r.get(p, 'none' if p is None else 'other'), repr(anon(t)))
        # iterate: outer first
        ida, idb = {}, {}
        cnt = 0
        rest_a, rest_b = list(la), list(lb)
        progress = True
        while progress:
            progress = False
            for withg in (True, False):
                for a in list(rest_a):
                    pa = ref.parent.get(a)
                    if pa in rest_a:
                        continue
                    k = key(ref, a, ida, withg)
                    for b in list(rest_b):
                        pb = cur.parent.get(b)
                        if pb in rest_b:
                            continue
                        if key(cur, b, idb, withg) == k:
                            cnt += 1
                            ida[a] = idb[b] = cnt
                            ren[b] = a
                            rest_a.remove(a)
                            rest_b.remove(b)
                            progress = True
                            break
                if progress:
                    break
            if not progress:
                # pair leftovers in order when unambiguous
                ra = [x for x in rest_a if ref.parent.get(x) not in rest_a]
                rb = [x for x in rest_b if cur.parent.get(x) not in rest_b]
                for a in ra:
                    cands = [b for b in rb if ref.loops[a].k == cur.loops[b].k
                             and ida.get(ref.parent.get(a)) == idb.get(cur.parent.get(b))]
                    ca = [x for x in ra if ref.loops[x].k == ref.loops[a].k
                          and ida.get(ref.parent.get(x)) == ida.get(ref.parent.get(a))]
                    if len(cands) == len(ca) and cands:
                        b = cands[0]
                        cnt += 1
                        ida[a] = idb[b] = cnt
                        ren[b] = a
                        rest_a.remove(a)
                        rest_b.remove(b)
                        progress = True
                        break
        self.unaligned = bool(rest_a or rest_b)
        self.rest_a, self.rest_b = rest_a, rest_b
        return ren

    def run(self):
        ref, cur = self.ref, self.cur
        # parameters are positional: rename current ones to the reference names
        pm = self.pmap
        if pm:
            def f(x):
                if x and x[0] == 'sym' and x[1] in pm:
                    return ('sym', pm[x[1]])
                return None
            apply_all(cur, f)
        ren = self.align_loops()
        fresh = {}

        def g(x):
            if x and x[0] == 'LID':
                if x in ren:
                    return ren[x]
                if x not in fresh:
                    fresh[x] = ('LID', 'cur%s' % (x[1],))
                return fresh[x]
            return None
        apply_all(cur, g)
        cur.loops = {g(k): v for k, v in cur.loops.items()}
        for k, v in cur.loops.items():
            v.a['lid'] = k
        cur.order = [g(k) for k in cur.order]
        cur.parent = {g(k): (g(v) if v is not None else None) for k, v in cur.parent.items()}
        for i in cur.items:
            i.loops = tuple(g(x) for x in i.loops)
        self.aligned = set(ren.values())
        self.aligned_cur = set(ren.values())
        self.rename_carried()
        for i in ref.items:
            if i.kind == 'raise' and not i.tries and i.guards:
                f = mk_and(*i.guards)
                ats = self.atoms(f, [])
                elem = bool(i.loops) and contains_any(f, lambda t: t[0] in ('elem', 'pos', 'lv') and i.loops[-1] in t)
                if len(ats) <= 5:
                    self.dead.append((f, {at: self.atomvar(at) for at in ats}, i.loops, elem))
        return self.compare_items()

    def rename_carried(self):
        """align names of loop-carried variables"""
        ref, cur = self.ref, self.cur
        used_a = used_lv(ref)
        used_b = used_lv(cur)
        m = {}
        for lid in self.aligned:
            a = {k for (l, k) in used_a if l == lid and isinstance(k, str)}
            b = {k for (l, k) in used_b if l == lid and isinstance(k, str)}
            oa, ob = sorted(a - b), sorted(b - a)
            if not ob:
                continue
            ca, cb = ref.loops[lid].carry, cur.loops[lid].carry

            def sig(c, k):
                if k not in c:
                    return None
                return repr(anon(c[k]))
            for k in list(ob):
                for j in list(oa):
                    if sig(ca, j) == sig(cb, k):
                        m[(lid, k)] = j
                        oa.remove(j)
                        ob.remove(k)
                        break
            if len(oa) == len(ob) == 1:
                m[(lid, ob[0])] = oa[0]
                oa, ob = [], []
            elif oa and ob:
                # by initial value
                for k in list(ob):
                    js = [j for j in oa if j in ca and k in cb and repr(anon(ca[j][0])) == repr(anon(cb[k][0]))]
                    ks = [q for q in ob if q in cb and k in cb and repr(anon(cb[q][0])) == repr(anon(cb[k][0]))]
                    if len(js) == 1 and len(ks) == 1:
                        m[(lid, k)] = js[0]
                        oa.remove(js[0])
                        ob.remove(k)
        if m:
            def f(x):
                if x and x[0] == 'lv' and (x[1], x[2]) in m:
                    return ('lv', x[1], m[(x[1], x[2])])
                if x and x[0] == 'lout' and (x[1], x[2]) in m:
                    return ('lout', x[1], m[(x[1], x[2])]) + tuple(rewrite(y, f) for y in x[3:])
                return None
            apply_all(cur, f)
            for lid in self.aligned:
                n = cur.loops.get(lid)
                if n is not None:
                    n.a['carry'] = {m.get((lid, k), k): v for k, v in n.carry.items()}

    def compare_items(self):
        ref, cur = self.ref, self.cur
        results = []    # (status, pairs, where)
        recoded = {}

        def note(r, loc, what):
            if r[0] != EQ:
                results.append((r[0], r[1], loc, what))
        # return value first (binds object identities)
        # loops
        for lid in self.aligned:
            a, b = ref.loops[lid], cur.loops.get(lid)
            if b is None:
                continue
            if a.k == 'loop':
                note(self.cmp(a.iter, b.iter), b.loc, 'loop iterates over')
            else:
                note(self.formulas(a.cond, b.cond), b.loc, 'loop condition')
        ua, ub = used_lv(ref), used_lv(cur)
        for lid in self.aligned:
            a, b = ref.loops[lid], cur.loops.get(lid)
            if b is None:
                continue
            ks = {k for (l, k) in ua | ub if l == lid}
            for k in sorted(ks, key=str):
                va, vb = a.carry.get(k), b.carry.get(k)
                if va is None or vb is None:
                    if va is not None or vb is not None:
                        results.append((UNK, (), b.loc, 'loop variable %s' % (k,)))
                    continue
                for x, y, w in zip(va, vb, ('initial value', 'update', 'value at break')):
                    if x is None and y is None:
                        continue
                    if x is None or y is None:
                        results.append((UNK, (), b.loc, 'loop variable'))
                        continue
                    self.ctx_loops = self.chain(lid)
                    n = len(results)
                    note(self.cmp(x, y), b.loc, '%s of loop variable %s' % (w, k if isinstance(k, str) else show(k)))
                    if len(results) > n and w == 'initial value' and results[-1][0] == DIFF:
                        recoded[n] = (lid, k)
                    self.ctx_loops = ()
        A = group(ref.items, self)
        B = group(cur.items, self)
        A, B = self.raises(A, B)
        self.groups = (A, B)
        # exact matches
        restA, restB, matched = [], list(B), []
        for a in A:
            ka = a.key()
            hit = None
            for b in restB:
                if b.key() == ka and b.kind == a.kind and self.pcmp(a, b)[0] == EQ and self.gcmp(a, b)[0] == EQ:
                    hit = b
                    break
            if hit is not None:
                restB.remove(hit)
                matched.append((a, hit))
            else:
                restA.append(a)
        # structural matches (equal by comparison)
        for a in list(restA):
            for b in list(restB):
                if a.kind == b.kind and a.loops == b.loops and self.pcmp(a, b)[0] == EQ and self.gcmp(a, b)[0] == EQ:
                    restA.remove(a)
                    restB.remove(b)
                    matched.append((a, b))
                    break
        results.extend(self.reordered(matched))
        restA, restB = self.merge_calls(restA), self.merge_calls(restB)
        for a in list(restA):
            for b in list(restB):
                if a.kind == b.kind and a.loops == b.loops and head(a.pay) == head(b.pay) and self.pcmp(a, b)[0] == EQ \
                        and self.gcmp(a, b)[0] == EQ:
                    restA.remove(a)
                    restB.remove(b)
                    break
        # align the remainder
        pairs = []
        for a in list(restA):
            cands = [b for b in restB if b.kind == a.kind and b.loops == a.loops and head(b.pay) == head(a.pay)]
            if cands:
                best = None
                for b in cands:
                    rp, rg = self.pcmp(a, b), self.gcmp(a, b)
                    score = ({EQ: 0, DIFF: 1, UNK: 3}.get(rp[0], 3) + {EQ: 0, DIFF: 1, UNK: 2}[rg[0]], len(rp[1]) + len(rg[1]))
                    if best is None or score < best[0]:
                        best = (score, b, rp, rg)
                pairs.append((best[0], a, best[1], best[2], best[3]))
        pairs.sort(key=lambda x: x[0])
        doneA, doneB = set(), set()
        deferred = []
        for sc, a, b, rp, rg in pairs:
            if id(a) in doneA:
                continue
            if id(b) in doneB:
                cands = [x for x in restB if id(x) not in doneB and x.kind == a.kind and x.loops == a.loops
                         and head(x.pay) == head(a.pay)]
                if not cands:
                    continue
                b = cands[0]
                rp, rg = self.pcmp(a, b), self.gcmp(a, b)
            doneA.add(id(a))
            doneB.add(id(b))
            if self.default_folded(a, b):
                results.append((UNK, (), b.loc, 'stored always instead of over a default'))
                continue
            if rp[0] == UNK and self.other_moment(a, b):
                rp = self.pair(a.pay, b.pay)
            if rp[0] == UNK and rg[0] == DIFF and a.kind == 'store' and self.cmp(a.pay[1], b.pay[1])[0] == EQ:
                deferred.append((rp, b))        # it happens at other times, whatever is stored
            else:
                note(rp, b.loc, '%s %s' % (b.kind, show(b.pay)[:200]))
            note(rg, b.loc, 'condition of %s %s' % (b.kind, show(b.pay)[:200]))
        leftA = [a for a in restA if id(a) not in doneA]
        leftB = [b for b in restB if id(b) not in doneB]
        for rp, b in deferred:
            if leftA or leftB:
                note(rp, b.loc, '%s %s' % (b.kind, show(b.pay)[:200]))
        # overwriting against keeping an existing entry
        for a in list(leftA):
            for b in list(leftB):
                if a.loops == b.loops and {a.kind, b.kind} == {'store', 'call'}:
                    st, ca = (a, b) if a.kind == 'store' else (b, a)
                    t, m = st.pay[1], ca.pay
                    if t[0] == 'idx' and m[0] == 'mcall' and m[2] == 'setdefault' and len(m[3]) == 2 and t[1][0] != 'obj':
                        x, y = (t[1], t[2], st.pay[2]), (m[1], m[3][0], m[3][1])
                        if st is b:
                            x, y = y, x
                        if all(self.cmp(p, q)[0] == EQ for p, q in zip(x, y)) and self.gcmp(a, b)[0] == EQ:
                            note(self.pair(a.pay, b.pay), b.loc, '%s %s' % (b.kind, show(b.pay)[:200]))
                            leftA.remove(a)
                            leftB.remove(b)
                            break
        # same kind, same loops, other head (e.g. call of another function)
        for a in list(leftA):
            for b in list(leftB):
                if a.kind == b.kind and a.loops == b.loops:
                    r = self.pcmp(a, b)
                    g = self.gcmp(a, b)
                    if r[0] in (DIFF, 'SWAP') and g[0] in (EQ, DIFF):
                        note((DIFF, r[1]) if r[0] == 'SWAP' else r, b.loc, '%s %s' % (b.kind, show(b.pay)[:200]))
                        note(g, b.loc, 'condition of %s %s' % (b.kind, show(b.pay)[:200]))
                        leftA.remove(a)
                        leftB.remove(b)
                        break
        # collected over the turns of a loop: now only the last is kept
        for a in list(leftA):
            for b in list(leftB):
                if a in leftA and b in leftB and a.loops == b.loops and self.overwritten(a, b, A, B):
                    note(self.pair(a.pay, b.pay), b.loc, '%s %s' % (b.kind, show(b.pay)[:200]))
                    leftA.remove(a)
                    leftB.remove(b)
        # same effect in another loop context / guard
        for a in list(leftA):
            for b in list(leftB):
                if a.kind == b.kind and a.loops != b.loops and self.pcmp(a, b)[0] == EQ:
                    leftA.remove(a)
                    leftB.remove(b)
                    inner = set(a.loops) ^ set(b.loops)
                    if all(l in self.aligned for l in inner) and self.gcmp(a, b)[0] == EQ and (
                            set(a.loops) < set(b.loops) or set(b.loops) < set(a.loops)):
                        note((DIFF, ((('inloops', a.loops), ('inloops', b.loops)),)), b.loc,
                             '%s %s moved %s a loop' % (b.kind, show(b.pay)[:200],
                                                        'into' if len(b.loops) > len(a.loops) else 'out of'))
                    else:
                        results.append((UNK, (), b.loc, 'moved effect'))
                    break
        rret = self.cmp(ref.ret, cur.ret)
        if ref.inner_ret or cur.inner_ret:
            # a loop moved into (or out of) a helper: its exits are part of the returned value
            leftA = [a for a in leftA if a.kind != 'ret']
            leftB = [b for b in leftB if b.kind != 'ret']
        lost = [a for a in leftA if a.kind not in ('break', 'handler', 'unknown')]
        gained = [b for b in leftB if b.kind not in ('break', 'handler', 'unknown')]
        hlost = [a for a in leftA if a.kind == 'handler']
        hgain = [b for b in leftB if b.kind == 'handler']
        for b in hgain:
            if b.pay[2] == 'swallows' and any(x in ('*', 'Exception', 'BaseException', 'RuntimeError', 'ValueError', 'KeyError',
                                                    'queue.Empty', 'Empty', 'OSError', 'IOError', 'IndexError', 'TypeError',
                                                    'AttributeError', 'UnicodeDecodeError', 'UnicodeError') for x in b.pay[1]) \
                    and not hlost:
                results.append((DIFF, ((('handler', 'none'), b.pay),), b.loc, 'error swallowed by a new handler for %s' % (b.pay[1],)))
            elif hlost and hlost[0].pay[1] == b.pay[1] and hlost[0].pay[2] != b.pay[2]:
                results.append((DIFF, ((hlost[0].pay, b.pay),), b.loc, 'handler for %s now %s' % (b.pay[1], b.pay[2])))
                hlost = hlost[1:]
            elif hlost and set(hlost[0].pay[1]) != set(b.pay[1]) and hlost[0].pay[2] == b.pay[2]:
                results.append((UNK if not wider(hlost[0].pay[1], b.pay[1]) else DIFF, ((hlost[0].pay, b.pay),), b.loc,
                                'handler catches %s instead of %s' % (b.pay[1], hlost[0].pay[1])))
                hlost = hlost[1:]
            else:
                results.append((UNK, (), b.loc, 'handler'))
        for a in hlost:
            results.append((UNK, (), a.loc, 'handler removed'))
        for a in leftA:
            if a.kind in ('break', 'unknown'):
                if a.kind == 'break' and a.loops and a.loops[-1] in self.aligned and not [b for b in leftB if b.kind == 'break'] \
                        and not ref_only_ret(cur, a):
                    results.append((DIFF, ((a.pay, ('nobreak',)),), a.loc, 'loop exit removed'))
                else:
                    results.append((UNK, (), a.loc, a.kind))
        for b in leftB:
            if b.kind in ('break', 'unknown'):
                out = [a for a in leftA if a.kind == 'ret' and a.loops == b.loops and self.gcmp(a, b)[0] == EQ] \
                    if b.kind == 'break' and b.loops and b in B else []
                if out and not [x for x in B[B.index(b):] if b.loops[-1] not in x.loops]:
                    # nothing follows the loop: leaving it and returning are the same
                    lost = [x for x in lost if x is not out[0]]
                    results.append((UNK, (), b.loc, 'loop exit'))
                elif b.kind == 'break' and b.loops and b.loops[-1] in self.aligned and not [a for a in leftA if a.kind == 'break']:
                    results.append((DIFF, ((('nobreak',), b.pay),), b.loc, 'loop exit added'))
                else:
                    results.append((UNK, (), b.loc, b.kind))
        if not hlost:
            # a handler that passes every error on, whatever it logs before
            for x in [x for x in lost + gained if x.kind == 'raise' and x.pay == ('raise', exc_class(('reraise',)))]:
                if x in gained and not lost:
                    gained.remove(x)
                    results.append((UNK, (), x.loc, 'raised again'))
        if lost and not gained:
            for a in lost:
                o = local_target(a.pay)
                if o is not None and o not in self.objmap:
                    results.append((UNK, (), a.loc, 'contents of a local container'))
                elif all(l in self.aligned for l in a.loops) or not cur.loops:
                    results.append((DIFF, (((a.kind, a.pay), ('missing',)),), self.cur.fi.loc,
                                    'effect missing: %s %s' % (a.kind, show(a.pay)[:200])))
                else:
                    results.append((UNK, (), a.loc, 'effect in a loop that is gone'))
        elif gained and not lost:
            for b in gained:
                if self.harmful_addition(b):
                    results.append((DIFF, ((('missing',), (b.kind, b.pay)),), b.loc,
                                    'effect added: %s %s' % (b.kind, show(b.pay)[:200])))
                else:
                    results.append((UNK, (), b.loc, 'effect added'))
        elif lost or gained:
            # swapped for something else
            again = {'random.choices', 'random.choice', 'random.randint', 'random.randrange', 'random.random', 'random.uniform'}
            for a in list(lost):
                for b in list(gained):
                    if a in lost and a.kind == b.kind == 'call' and a.pay[0] == b.pay[0] == 'call' \
                            and (a.pay[1] == 'random.sample' and b.pay[1] in again or b.pay[1] == 'random.sample' and a.pay[1] in again):
                        # drawn without and with replacement
                        results.append((DIFF, ((a.pay, b.pay),), b.loc, 'call %s' % show(b.pay)[:200]))
                        lost.remove(a)
                        gained.remove(b)
            for x in lost + gained:
                results.append((UNK, (), x.loc, 'effect %s' % show(x.pay)[:120]))
        note(rret, cur.fi.loc, 'returned value')
        # a loop variable that starts elsewhere and is read in another way may only be encoded in another way,
        # a loop whose condition and exits both changed may only be written in another way
        for n, lv in recoded.items():
            def mentions(r):
                return contains_any(r[1], lambda z: isinstance(z, tuple) and z[:1] == ('lv',) and z[1:3] == lv)
            upd = [i for i, r in enumerate(results) if i != n and r[0] != EQ
                   and (mentions(r) or r[3].endswith('of loop variable %s' % (lv[1] if isinstance(lv[1], str) else show(lv[1]),)))]
            for i in upd and [n] + upd:
                results[i] = (UNK,) + results[i][1:]
        # a container of this function that is filled in place on one side only: its contents decide, not the effect
        own = [x for x in gained if x.kind == 'call' and x.pay[0] == 'mcall' and x.pay[1][0] == 'call'
               and x.pay[1][1] in ('set', 'list', 'dict', 'sorted', 'tuple')]
        for x in own:
            t = x.pay[1]
            if any(r[0] != EQ and not r[3].startswith('effect added') for r in results):
                results = [(UNK,) + r[1:] if r[0] == DIFF and any(
                    contains_any(z, lambda y: y == t) for pr in r[1] for z in pr) else r for r in results]
        # a value chosen by what was raised, where the other side has the choice around two effects
        def chosen(t):
            return contains_any(t, lambda z: isinstance(z, tuple) and len(z) == 4 and z[0] == 'ite'
                                and contains_any(z[1], lambda y: isinstance(y, tuple) and y[:1] == ('exc',)))
        for one, two in ((ref, cur), (cur, ref)):
            for i in one.items:
                if i.kind == 'store' and chosen(i.pay[2]) and not any(
                        j.kind == 'store' and chosen(j.pay[2]) for j in two.items):
                    t = i.pay[1]
                    results = [(UNK,) + r[1:] if r[0] == DIFF and (
                        r[3] == 'store ' + show(i.pay)[:len(r[3]) - 6] or any(
                            isinstance(z, tuple) and contains_any(z, lambda y: y == t) for pr in r[1] for z in pr)
                        or 'store' in r[3]) else r for r in results]
        if any(r[3] == 'loop condition' and r[0] != EQ for r in results) and any(r[3].startswith('loop exit') for r in results):
            results = [(UNK,) + r[1:] if r[3] == 'loop condition' or r[3].startswith('loop exit') else r for r in results]
        return results

    def overwritten(self, a, b, A, B):
        """one side adds to a place on every turn, the other stores into it; several turns meet the same place"""
        x, y, ys = (a, b, B) if b.kind == 'store' else (b, a, A)
        if y.kind != 'store' or not x.loops or any(l not in self.aligned for l in x.loops):
            return False
        p = x.pay
        if x.kind == 'aug' and p[1] in ('+', '-', '|', '&', '*'):
            place, val = p[2], (p[3],)
        elif x.kind == 'call' and p[0] == 'mcall' and p[2] in ('extend', 'append', 'update', 'add') and len(p[3]) == 1 and not p[4:5][0]:
            place, val = p[1], (p[3][0], ('list', (p[3][0],)))
        else:
            return False
        if place[0] not in ('idx', 'attr') or place[0] == 'attr' and place[1][0] == 'sym' and len(x.loops) == 0:
            return False
        t, v = y.pay[1], y.pay[2]
        one = (lambda q, r: self.cmp(q, r)) if x is a else (lambda q, r: self.cmp(r, q))
        if one(place, t)[0] != EQ or not any(one(w, v)[0] == EQ for w in val) or self.gcmp(a, b)[0] != EQ:
            return False
        if any(i is not y and i.kind == 'store' and i.pay[1] == t for i in ys):
            return False
        if contains_any(y.guard, lambda z: z == t or z[0] == 'in' and z[2:3] == (t[1],)):
            return False                # stored on the first meeting only
        # a place of its own for every turn of every loop?
        keys = []
        q = place
        while q[0] in ('idx', 'attr', 'elem'):
            if q[0] == 'idx':
                keys.append(q[2])
            elif q[0] == 'elem':
                keys.append(q)
            q = q[1]
        flat = [k2 for k in keys for k2 in (k[1] if k[0] == 'tuple' else (k,))]
        own = set()
        for k in flat:
            if k[0] in ('elem', 'pos') and k[2] in x.loops:
                own.add(k[2])
        return bool(set(x.loops) - own)

    def other_moment(self, a, b):
        """does one side use the value an attribute has after a store where the other uses the one before?"""
        for x, y, sw in ((a, b, False), (b, a, True)):
            sub, gs = {}, {}
            for i in self.groups[1 if sw else 0]:
                if i.kind == 'store' and i.pay[1][0] == 'attr' and not i.loops:
                    t, g, v = i.pay[1], i.guard, i.pay[2]
                    if t in gs and gs[t][0] == mk_not(g):
                        sub[t] = mk_ite(g, v, gs[t][1])
                    else:
                        sub[t] = v if g == TRUE else mk_ite(g, v, sub.get(t, t))
                    gs[t] = (g, v)
            sub = {t: v for t, v in sub.items() if v != t}
            if not sub:
                continue
            pay = x.pay if x.kind != 'store' else ('tuple', x.pay[2])
            other = y.pay if y.kind != 'store' else ('tuple', y.pay[2])
            if x.kind == 'store' and self.cmp(a.pay[1], b.pay[1])[0] != EQ:
                continue
            new = rewrite(pay, lambda t: sub.get(t) if isinstance(t, tuple) else None)
            if new != pay and (self.cmp(new, other) if not sw else self.cmp(other, new))[0] == EQ:
                return True
        return False

    def reordered(self, matched):
        """equal effects in another order: two that touch the same thing do not commute"""
        out = []
        matched = sorted(matched, key=lambda m: m[0].n)
        for i, (a1, b1) in enumerate(matched):
            for a2, b2 in matched[i + 1:]:
                if b1.n < b2.n or a1.n == a2.n or not self.interfere(a1, a2):
                    continue
                if not self.interfere(b1, b2) or a1.pay == a2.pay or self.disjoint(a1.guard, a2.guard):
                    continue
                out.append((DIFF, ((('before', a1.pay, a2.pay), ('before', a2.pay, a1.pay)),), b2.loc,
                            'now before %s: %s' % (show(b1.pay)[:120], show(b2.pay)[:120])))
        return out

    def interfere(self, x, y):
        p, q = x.pay, y.pay
        if x.kind == 'yield' and y.kind == 'yield':
            return x.loops == y.loops and not x.loops
        if x.kind == 'store' and y.kind == 'store':
            return p[1] == q[1] and p[2] != q[2]
        if x.kind == 'call' and y.kind == 'call':
            if p[0] == q[0] == 'mcall' and p[1] == q[1]:
                if p[2] in COMMUTE and q[2] in COMMUTE or not (p[2] in SEQUENCED and q[2] in SEQUENCED):
                    return False
                return True
            if p[0] == q[0] == 'call' and isinstance(p[1], str) and isinstance(q[1], str):
                if p[1].startswith(FILES) and q[1].startswith(FILES) and p[2] and q[2]:
                    return contains(p[2][0], q[2][0]) or contains(q[2][0], p[2][0])
            if x.loops == y.loops and (self.changes_what_is_read(p, q) or self.changes_what_is_read(q, p)):
                return True
            return False
        if {x.kind, y.kind} == {'store', 'call'}:
            s, c = (p, q) if x.kind == 'store' else (q, p)
            t = s[1]
            if t[0] == 'attr' and c[0] == 'mcall' and c[1] == t[1] and t[1][0] in ('call', 'obj') and t[1][0] == 'call':
                return True
        return False

    def changes_what_is_read(self, p, q):
        """p changes an object in place that q, a function of the package, is given and reads from"""
        if p[0] != 'mcall' or q[0] != 'rcall' or p[2] not in IMPURE_METHODS or p[1][0] in ('const', 'ext', 'global'):
            return False
        return any(v == p[1] and any(f.qual == q[1] and reads_from(f.node, n) for f in self.refprog.funcs) for n, v in q[2])

    def choosing(self, v):
        """what decides between the alternatives of a value"""
        if v[0] == 'ite':
            return self.atoms(v[1], []) + self.choosing(v[2]) + self.choosing(v[3])
        return self.atoms(v, []) if v[0] in ('cmp', 'not', 'and', 'or', 'ifp') else []

    def default_folded(self, a, b):
        """one side stores under a condition what the other always stores as a value that depends on the same condition"""
        if a.kind != 'store' or b.kind != 'store' or self.cmp(a.pay[1], b.pay[1])[0] != EQ:
            return False
        always = b if b.guard == TRUE else a if a.guard == TRUE else None
        some = a if always is b else b
        if always is None or some.guard == TRUE:
            return False
        v, w = always.pay[2], some.pay[2]
        mine = set(self.atoms(some.guard, []))
        if not any(any(self.cmp(x, y)[0] == EQ for y in mine) if some is a else any(self.cmp(y, x)[0] == EQ for y in mine)
                   for x in self.choosing(v)):
            return False
        return v[0] == 'ite' or w in (('const', True), ('const', False))

    def harmful_addition(self, b):
        if any(l not in self.aligned for l in b.loops):
            return False
        p = b.pay
        if b.kind == 'raise':
            return True
        if b.kind == 'yield' or b.kind == 'ret':
            return True
        if b.kind in ('store', 'aug', 'del'):
            t = p[1] if b.kind != 'aug' else p[2]
            if t[0] == 'attr':
                return t[2] in self.known_attrs
            base = t
            while base[0] in ('idx', 'attr'):
                if base[0] == 'attr' and base[2] not in self.known_attrs:
                    return False
                base = base[1]
            return base[0] in ('sym', 'elem', 'rcall', 'call', 'mcall')
        if b.kind == 'mut':
            return False
        if b.kind == 'call':
            if p[0] == 'mcall' and p[2] in IMPURE_METHODS:
                base = p[1]
                while base[0] in ('idx', 'attr'):
                    if base[0] == 'attr' and base[2] not in self.known_attrs:
                        return False
                    base = base[1]
                return True
            if p[0] == 'rcall':
                return self.visible is None or p[1] in self.visible
            if p[0] == 'call' and isinstance(p[1], str) and (p[1].startswith(('os.', 'shutil.')) or p[1].startswith('random.')
                                                             or p[1].startswith('numpy.random')):
                return True
        return False

    def merge_calls(self, items):
        out = []
        for g in items:
            done = False
            if g.kind in ('call', 'yield', 'mut', 'aug'):
                for o in out:
                    if o.kind == g.kind and o.loops == g.loops and head(o.pay) == head(g.pay) and self.disjoint(o.guard, g.guard):
                        m = merge_pay(o.pay, g.pay, g.guard, o.guard)
                        if m is not None:
                            o.pay, o._key = m, None
                            o.guard = simp_or(o.guard, g.guard)
                            done = True
                            break
            if not done:
                out.append(g)
        return out

    def disjoint(self, f, g):
        """can the two guards not hold together?"""
        h = mk_and(f, g)
        if h == FALSE:
            return True
        ats = self.atoms(h, [])
        if len(ats) > 8:
            return False
        vm = {at: self.atomvar(at) for at in ats}
        t = self.tt(h, vm, FALSE, {})
        return t == EQ

    def chain(self, lid):
        out = []
        while lid is not None:
            out.append(lid)
            lid = self.ref.parent.get(lid)
        return tuple(reversed(out))

    def pcmp(self, a, b):
        self.ctx_loops = a.loops
        try:
            r = self.cmp(a.pay, b.pay)
            if r[0] == DIFF:
                # parameters that the guard fixes
                fixed = {t[3]: t[2] for g in (a.guard, b.guard) for t in (g[1:] if g[0] == 'and' else (g,))
                         if t[:2] == ('cmp', '==') and is_const(t[2]) and t[3][0] == 'sym'}
                if fixed and contains_any((a.pay, b.pay), lambda t: t in fixed) \
                        and self.cmp(rewrite(a.pay, lambda t: fixed.get(t)), rewrite(b.pay, lambda t: fixed.get(t)))[0] == EQ:
                    r = (EQ, ())
            if r[0] == DIFF and a.guard != TRUE and self.use_dead and contains_any((a.pay, b.pay), lambda t: t[0] in ('ite', 'ifp')):
                # values are compared where the effect happens only
                ats = self.atoms(a.guard, [])
                if len(ats) <= 8:
                    saved, memo = self.dead, self.memo
                    self.dead = saved + [(mk_not(a.guard), {at: self.atomvar(at) for at in ats}, a.loops, False)]
                    self.memo = {k: v for k, v in memo.items() if v is not None and v[0] == EQ}
                    try:
                        r = self.cmp(a.pay, b.pay)
                    finally:
                        self.dead, self.memo = saved, memo
            return r
        finally:
            self.ctx_loops = ()

    def gcmp(self, a, b):
        if a.kind != 'raise':
            self.ctx_loops = a.loops
            try:
                return self.formulas(a.guard, b.guard)
            finally:
                self.ctx_loops = ()
        return self.exact(a.guard, b.guard)

    def exact(self, f, g, dead=None):
        saved = self.dead
        self.use_dead = dead is not None
        if dead is not None:
            self.dead = dead
            memo, self.memo = self.memo, {}
        try:
            return self.formulas(f, g)
        finally:
            self.use_dead, self.dead = True, saved
            if dead is not None:
                self.memo = memo

    def raises(self, A, B):
        """compare the set of raising inputs as a whole, then class by class"""
        for loops in list(dict.fromkeys(a.loops for a in A if a.kind == 'raise')):
            ra = [a for a in A if a.kind == 'raise' and a.loops == loops]
            rb = [b for b in B if b.kind == 'raise' and b.loops == loops]
            if not rb:
                continue
            fa, fb = mk_or(*[a.guard for a in ra]), mk_or(*[b.guard for b in rb])
            outer = [d for d in self.dead if len(d[2]) < len(loops)]
            if self.exact(fa, fb, outer)[0] != EQ:
                continue
            same = True
            cls = list(dict.fromkeys([a.pay for a in ra] + [b.pay for b in rb]))
            for c in cls:
                ga = mk_or(*[a.guard for a in ra if a.pay == c])
                gb = mk_or(*[b.guard for b in rb if b.pay == c])
                others = list(outer)
                for a in ra:
                    if a.pay != c:
                        ats = self.atoms(a.guard, [])
                        others.append((a.guard, {at: self.atomvar(at) for at in ats}, loops, True))
                if self.exact(ga, gb, others)[0] != EQ:
                    same = False
            if same:
                A = [a for a in A if a not in ra]
                B = [b for b in B if b not in rb]
        return A, B


DISJOINT = {('builtin', t) for t in ('str', 'list', 'dict', 'tuple', 'int', 'float', 'set', 'bytes')}


def looked_up(a, b):
    """forms of the same thing: `x in d`, `d[x]` and `d.get(x)`; the elements of s and s[i] for each place i"""
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    if a[:1] == ('idx',) and b[:1] == ('elem',) and a[1] == b[1] and a[2][0] in ('elem', 'pos'):
        return True
    found = []

    def get(t):
        if t[0] == 'mcall' and t[2] == 'get' and t[3] and not (len(t[3]) > 1 and t[3][1] != NONE) and not t[4]:
            found.append((t[3][0], t[1]))
        return False
    contains_any(a, get)
    return bool(found) and any(contains_any(b, lambda t: t == ('in', k, d) or t == ('idx', d, k)) for k, d in found)


def typetests(keys):
    """which of the variables of a condition test the type of something: {variable: (subject, type)}"""
    out = {}
    for k in keys:
        t = k[1]
        if k[0] == 'atom' and t[0] == 'isinstance' and t[2] in DISJOINT:
            out[k] = (t[1], t[2])
    return out


def clash(typed, env):
    """no value is of two of the basic types, and None is of none of them"""
    seen = {}
    for k, (x, t) in typed.items():
        if env[k][-1] is True:
            if seen.setdefault(x, t) != t or env.get(('val', x)) == ('none',):
                return True
    return False


def flat_if(p):
    while True:
        t, e = p[2], p[3]
        if len(t) == 1 and t[0][0] == 'ifp' and t[0][3] == e:
            p = ('ifp', mk_and(p[1], t[0][1]), t[0][2], e)
        elif len(e) == 1 and e[0][0] == 'ifp' and e[0][2] == t:
            p = ('ifp', mk_or(p[1], e[0][1]), t, e[0][3])
        else:
            return p


def local_target(p):
    t = {'store': lambda: p[1], 'aug': lambda: p[2], 'mut': lambda: p[1], 'delete': lambda: p[1]}.get(p[0], lambda: None)()
    if p[0] == 'mcall':
        t = p[1]
    while isinstance(t, tuple) and t and t[0] in ('idx', 'attr'):
        t = t[1]
    return t if isinstance(t, tuple) and len(t) == 2 and t[0] == 'obj' else None


def tuple_width(v):
    if v[0] == 'tuple':
        return len(v)
    if v[0] == 'ite':
        n = tuple_width(v[2])
        return n if n is not None and n == tuple_width(v[3]) else None
    return None


def project(v, i):
    if v[0] == 'tuple':
        return v[i]
    return mk_ite(v[1], project(v[2], i), project(v[3], i))


def wider(x, y):
    broad = {'*', 'Exception', 'BaseException'}
    return bool(set(y) & broad) and not (set(x) & broad)


def ref_only_ret(cur, a):
    return any(i.kind == 'ret' and i.loops and i.loops[-1] == a.loops[-1] for i in cur.items)


def head(p):
    if p[0] == 'call':
        return ('call', p[1] if isinstance(p[1], str) else p[1][0])
    if p[0] == 'mcall':
        return ('mcall', p[2])
    if p[0] in ('rcall', 'new'):
        return ('rcall', p[1])
    if p[0] == 'store':
        t = p[1]
        return ('store', t[0], t[2] if t[0] == 'attr' else None)
    if p[0] == 'aug':
        t = p[2]
        return ('aug', t[0], t[2] if t[0] == 'attr' else None)
    if p[0] == 'mut':
        return ('mut', p[2])
    return (p[0],)


class GItem:
    __slots__ = ('kind', 'guard', 'loops', 'pay', 'loc', 'fn', '_key', 'tries', 'n')

    def key(self):
        if self._key is None:
            self._key = (self.kind, self.loops, repr(anon(self.pay)))
        return self._key


def group(items, cmp=None):
    out = []
    for n, i in enumerate(items):
        g = GItem()
        g.kind, g.loops, g.pay, g.loc, g.fn, g._key, g.tries = i.kind, i.loops, i.pay, i.loc, i.fn, None, i.tries
        g.guard = mk_and(*i.guards) if i.guards else TRUE
        if g.guard == FALSE:
            continue
        if g.kind == 'store' and g.pay[1] == g.pay[2]:
            continue          # x.a = x.a
        merged = False
        for o in out:
            if o.kind == g.kind and o.loops == g.loops and o.tries == g.tries:
                same = o.pay == g.pay or (g.kind not in ('store', 'aug', 'mut', 'del') and anon(o.pay) == anon(g.pay))
                if same and (g.kind == 'raise' or exclusive(o.guard, g.guard) or (cmp and cmp.disjoint(o.guard, g.guard))):
                    o.guard = simp_or(o.guard, g.guard)
                    merged = True
                    break
                if g.kind == 'store' and o.pay[1] == g.pay[1]:
                    if exclusive(o.guard, g.guard) or (cmp and cmp.disjoint(o.guard, g.guard)):
                        pass
                    elif any(x.kind in ('call', 'yield', 'ret') for x in items[items_index(items, o):n]):
                        continue
                    o.pay = ('store', g.pay[1], gated(g.guard, g.pay[2], o.guard, o.pay[2]))
                    o.guard = simp_or(o.guard, g.guard)
                    o._key = None
                    merged = True
                    break
        if not merged:
            g.n = n
            out.append(g)
    for g in out:
        # x.a = v if c else x.a
        if g.kind == 'store' and g.pay[2][0] == 'ite' and g.pay[1][0] == 'attr':
            t, v = g.pay[1], g.pay[2]
            if v[3] == t:
                g.guard, g.pay, g._key = mk_and(g.guard, v[1]), ('store', t, v[2]), None
            elif v[2] == t:
                g.guard, g.pay, g._key = mk_and(g.guard, mk_not(v[1])), ('store', t, v[3]), None
    return out


def items_index(items, o):
    return o.n + 1


def merge_pay(a, b, g, og):
    """two calls of the same thing under exclusive guards as one call with gated arguments"""
    if a == b:
        return a
    if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
        return None
    h = a[0]
    if h != b[0]:
        return None

    def val(x, y):
        return x if x == y else gated(g, y, og, x)

    def seq(x, y):
        if len(x) != len(y):
            return None
        return tuple(val(p, q) for p, q in zip(x, y))

    def kw(x, y):
        if len(x) != len(y) or any(p[0] != q[0] for p, q in zip(x, y)):
            return None
        return tuple((p[0], val(p[1], q[1])) for p, q in zip(x, y))
    if h == 'call':
        if a[1] != b[1]:
            return None
        p, k = seq(a[2], b[2]), kw(a[3], b[3])
        return None if p is None or k is None else ('call', a[1], p, k) + a[4:]
    if h == 'mcall':
        if a[2] != b[2]:
            return None
        p, k = seq(a[3], b[3]), kw(a[4], b[4])
        return None if p is None or k is None else ('mcall', val(a[1], b[1]), a[2], p, k) + a[5:]
    if h == 'rcall':
        k = kw(a[2], b[2])
        return None if k is None else ('rcall', a[1], k) + a[3:]
    if h == 'mut':
        if a[1] != b[1] or a[2] != b[2]:
            return None
        p = seq(a[3], b[3])
        return None if p is None else ('mut', a[1], a[2], p)
    if h == 'aug':
        if a[1] != b[1] or a[2] != b[2]:
            return None
        return ('aug', a[1], a[2], val(a[3], b[3]))
    if h == 'yield':
        return ('yield', val(a[1], b[1]))
    return None


def gated(g, x, og, y):
    """the value is x under g, otherwise y; shared literals carry no choice"""
    if g == TRUE:
        return x
    la, lb = lits(g), lits(og)
    rest = [l for l in (g[1:] if g[0] == 'and' else (g,)) if l not in lb]
    return mk_ite(mk_and(*rest) if rest else g, x, y)


def simp_or(a, b):
    """or of two conjunctions, removing a complementary literal"""
    xa = set(a[1:]) if a[0] == 'and' else {a}
    xb = set(b[1:]) if b[0] == 'and' else {b}
    da, db = xa - xb, xb - xa
    if len(da) == 1 and len(db) == 1 and mk_not(next(iter(da))) == next(iter(db)):
        keep = [x for x in (a[1:] if a[0] == 'and' else (a,)) if x in xb]
        return mk_and(*keep) if keep else TRUE
    return mk_or(a, b)


def exclusive(a, b):
    xa = set(a[1:]) if a[0] == 'and' else {a}
    xb = set(b[1:]) if b[0] == 'and' else {b}
    return any(mk_not(x) in xb for x in xa)


def apply_all(s, f):
    cache = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        k = x
        if k in cache:
            return cache[k]
        r = rewrite(x, f)
        cache[k] = r
        return r
    for i in s.items:
        i.pay = go(i.pay)
        i.guards = tuple(go(g) for g in i.guards)
    s.ret = go(s.ret)
    for n in s.loops.values():
        n.a['iter'] = go(n.a['iter'])
        n.a['cond'] = go(n.a['cond'])
        n.a['g'] = tuple(go(x) for x in n.a['g'])
        n.a['carry'] = {k if isinstance(k, str) else go(k): tuple(None if x is None else go(x) for x in v)
                        for k, v in n.a['carry'].items()}


def live_terms(s):
    for i in s.items:
        yield i.pay
        for g in i.guards:
            yield g
    yield s.ret


def live_lids(s):
    live = set()
    for i in s.items:
        live.update(i.loops)
    todo = list(live_terms(s))
    for t in todo:
        for x in subterms(t):
            if x and x[0] == 'LID':
                live.add(x)
    ch = True
    while ch:
        ch = False
        for l in list(live):
            n = s.loops.get(l)
            if n is None:
                continue
            p = s.parent.get(l)
            if p is not None and p not in live:
                live.add(p)
                ch = True
            for t in (n.iter, n.cond):
                for x in subterms(t):
                    if x and x[0] == 'LID' and x not in live:
                        live.add(x)
                        ch = True
    return live


def used_lv(s):
    """(lid, name) of loop-carried variables which live terms mention, transitively"""
    used = set()
    todo = list(live_terms(s))
    for l in live_lids(s):
        n = s.loops.get(l)
        if n is not None:
            todo.append(n.iter)
            todo.append(n.cond)
    seen = set()
    while todo:
        t = todo.pop()
        for x in subterms(t):
            if x and x[0] in ('lv',) and (x[1], x[2]) not in used:
                used.add((x[1], x[2]))
                n = s.loops.get(x[1])
                if n is not None and x[2] in n.carry:
                    for y in n.carry[x[2]]:
                        if y is not None:
                            todo.append(y)
    return used
