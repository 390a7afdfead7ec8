"""calibration: how many single mutations of the reviewed code are decided as different?
usage: mutate.py [-n N] [-s SEED] [-o op,op] [-f funcsubstr] [-v STATUS]   (nothing is executed; mutants are compared only)"""
import ast, os, sys, copy, time, collections, multiprocessing, random, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter('ignore')
from sa.model import Program, Module
from sa.refcmp import RefCmp, canon_dump
import sa.model as model
REPO = os.environ.get('NEPHOSEM_REPO', '/repo')
SWAPS = [('row_items', 'col_items'), ('item2rowid', 'item2colid'), ('left', 'right'), ('left_span', 'right_span'), ('row', 'col'),
         ('append', 'extend'), ('union', 'intersection'), ('startswith', 'endswith'), ('tocsr', 'tocsc'), ('keys', 'values'),
         ('strip', 'rstrip'), ('successors', 'predecessors'), ('dirname', 'basename'), ('min', 'max'), ('sum', 'mean'),
         ('row_items', 'items'), ('lower', 'upper'), ('any', 'all')]
LOG = ('logger', 'logging', 'print', 'warnings', 'pbar', 'tqdm')


def islog(n):
    return any(isinstance(x, ast.Name) and x.id in LOG for x in ast.walk(n))


def bodies(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def sites(fn):
    """all (op, apply) pairs on a function node; apply mutates in place"""
    out = []
    params = [a.arg for a in fn.args.args if a.arg not in ('self', 'cls')]
    inlog = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Expr) and islog(n):
            for x in ast.walk(n):
                inlog.add(id(x))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                inlog.add(id(x))

    def add(op, f):
        out.append((op, f))
    for own, fld, b in bodies(fn):
        for i, s in enumerate(b):
            if id(s) in inlog and not isinstance(s, ast.Raise):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or isinstance(s, ast.AugAssign) or \
                    (isinstance(s, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in s.targets)) or \
                    isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
                if not islog(s) or isinstance(s, ast.Raise):
                    def f(b=b, i=i):
                        b[i] = ast.Pass()
                    add('drop_' + type(s).__name__.lower(), f)
            if isinstance(s, ast.If) and not islog(s) and not s.orelse:
                def f(b=b, i=i, s=s):
                    b[i:i + 1] = s.body
                add('drop_guard', f)

                def f(b=b, i=i, s=s):
                    b[i] = ast.Pass()
                add('drop_if', f)
            if isinstance(s, ast.If) and s.orelse and not islog(s):
                def f(b=b, i=i, s=s):
                    b[i:i + 1] = s.body
                add('only_then', f)

                def f(b=b, i=i, s=s):
                    b[i:i + 1] = s.orelse
                add('only_else', f)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(b):
                pass
            if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.If)) \
                    and conflict(s, b[i + 1]):
                def f(b=b, i=i):
                    b[i], b[i + 1] = b[i + 1], b[i]
                add('swap_stmts', f)
            if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(getattr(s, 'value', None), ast.Call) and not islog(s) and i and \
                    not (isinstance(s, ast.Assign)):
                def f(b=b, i=i, s=s):
                    b[i] = ast.Try(body=[s], handlers=[ast.ExceptHandler(type=ast.Name('Exception', ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[])
                add('swallow', f)
            if isinstance(s, ast.Return) and s.value is not None and own is not fn:
                def f(b=b, i=i, s=s):
                    b[i] = ast.Pass()
                add('drop_return', f)
    for n in ast.walk(fn):
        if id(n) in inlog:
            continue
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def f(n=n):
                n.test = ast.UnaryOp(ast.Not(), n.test)
            add('negate', f)
            if isinstance(n.test, ast.BoolOp):
                def f(n=n):
                    n.test.op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                add('andor', f)
                for j in range(len(n.test.values)):
                    def f(n=n, j=j):
                        del n.test.values[j]
                        if len(n.test.values) == 1:
                            n.test = n.test.values[0]
                    add('drop_conj', f)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
            t = m.get(type(n.ops[0]))
            if t:
                def f(n=n, t=t):
                    n.ops = [t()]
                add('cmp', f)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                def f(n=n):
                    n.value = not n.value
                add('bool', f)
            elif isinstance(n.value, int):
                def f(n=n):
                    n.value = n.value + 1 if n.value != 1 else 0
                add('int', f)
            elif isinstance(n.value, str) and n.value and ' ' not in n.value and len(n.value) < 20:
                def f(n=n):
                    n.value = n.value + 'x'
                add('str', f)
        if isinstance(n, ast.Call) and not islog(n):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
                def f(n=n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                add('swap_args', f)
            for j, k in enumerate(n.keywords):
                def f(n=n, j=j):
                    del n.keywords[j]
                add('drop_kw', f)
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'reversed', 'len', 'abs') and len(n.args) == 1 or \
                    isinstance(n.func, ast.Attribute) and n.func.attr in ('deepcopy', 'abspath', 'join', 'normpath') and n.args or \
                    isinstance(n.func, ast.Name) and n.func.id == 'list' and len(n.args) == 1 and False:
                def f(n=n):
                    a = n.args[-1]
                    n.func = ast.Name('list', ast.Load()) if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'reversed') else ast.Name('str', ast.Load())
                    if n.func.id == 'str':
                        n.__class__ = ast.IfExp
                        n.test, n.body, n.orelse = ast.Constant(True), a, a
                    else:
                        n.args, n.keywords = [a], []
                add('unwrap', f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'strip', 'lower', 'transpose', 'tocsr', 'tocoo', 'reorder', 'split'):
                def f(n=n):
                    v = n.func.value
                    n.__class__ = ast.IfExp
                    n.test, n.body, n.orelse = ast.Constant(True), v, v
                add('unwrap_m', f)
        if isinstance(n, ast.Attribute):
            for x, y in SWAPS:
                for p, q in ((x, y), (y, x)):
                    if n.attr == p:
                        def f(n=n, q=q):
                            n.attr = q
                        add('attr', f)
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            t = m.get(type(n.op))
            if t and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                def f(n=n, t=t):
                    n.op = t()
                add('arith', f)
            if t and not isinstance(n.op, ast.Mod):
                def f(n=n):
                    v = n.left
                    n.__class__ = ast.IfExp
                    n.test, n.body, n.orelse = ast.Constant(True), v, v
                add('drop_operand', f)
        if isinstance(n, (ast.Break, ast.Continue)):
            def f(n=n):
                n.__class__ = ast.Continue if isinstance(n, ast.Break) else ast.Break
            add('brkcont', f)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params and len(params) > 1:
            q = params[(params.index(n.id) + 1) % len(params)]

            def f(n=n, q=q):
                n.id = q
            add('name', f)
        if isinstance(n, ast.comprehension) and n.ifs:
            def f(n=n):
                n.ifs = []
            add('drop_filter', f)
        if isinstance(n, ast.Slice) and (n.lower or n.upper):
            def f(n=n):
                n.lower = None
                n.upper = None
            add('slice', f)
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            def f(n=n):
                n.type = ast.Name('Exception', ast.Load())
            add('widen', f)
    return out


def names(n):
    ld, stn = set(), set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name):
            (stn if isinstance(x.ctx, ast.Store) else ld).add(x.id)
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
            b = x
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name):
                stn.add(b.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
            if x.func.attr in ('update', 'append', 'update_one_match', 'process_right_window', 'increment', 'start', 'join', 'close', 'put', 'write'):
                stn.add(x.func.value.id)
    return ld, stn


def conflict(a, b):
    la, sa_ = names(a)
    lb, sb = names(b)
    return not islog(a) and not islog(b) and bool((sa_ & lb) or (la & sb) or (sa_ & sb))


_REF = None


def one(job):
    path, qual, idx = job
    global _REF
    if _REF is None:
        _REF = {}
    src = open(os.path.join(REPO, path), encoding='utf-8').read()
    tree = ast.parse(src)
    fn = find(tree, qual)
    ss = sites(fn)
    before = ast.unparse(fn)
    if isinstance(idx, tuple):
        op, f = ss[idx[0]]
        f()
        ss = sites(fn)
        op2, f = ss[idx[1] % len(ss)] if ss else ('', lambda: None)
        op = 'two'
    else:
        op, f = ss[idx]
    f()
    ast.fix_missing_locations(tree)
    after = ast.unparse(tree)
    fa = ast.unparse(find(ast.parse(after), qual)) if find(ast.parse(after), qual) is not None else ''
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(os.path.join(REPO, 'nephosem'), os.path.join(d, 'nephosem'), ignore=shutil.ignore_patterns('__pycache__', 'tests', '*.txt'))
        open(os.path.join(d, path), 'w', encoding='utf-8').write(after)
        R = RefCmp(Program(d))
        V = R.verdicts()
        ch = {q: V[q] for q in R.common if V[q][0] != 'SAME'}
        st = 'DIFF' if any(v[0] == 'DIFF' for v in ch.values()) else 'UNK' if any(v[0] == 'UNK' for v in ch.values()) else 'EQ'
        why = [str(x[3])[:160] + ' [' + x[0] + ']' for v in ch.values() for x in v[1]]
    except Exception as e:
        st, why = 'EXC', [repr(e)]
    finally:
        shutil.rmtree(d)
    import difflib
    df = [l for l in difflib.unified_diff(before.splitlines(), fa.splitlines(), lineterm='', n=0) if not l.startswith(('---', '+++', '@@'))]
    return qual, op, st, why, df[:6]


def find(tree, qual):
    parts = qual.split('.')
    cur = tree
    for p in parts:
        for n in getattr(cur, 'body', []):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p:
                cur = n
                break
        else:
            return None
    return cur


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=400)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-o', default='')
    ap.add_argument('-f', default='')
    ap.add_argument('-v', default='')
    ap.add_argument('-d', action='store_true', help='two mutations in the same function')
    a = ap.parse_args()
    jobs = []
    skip = ('deprel/', 'tests', 'logging.py', 'progress')
    from sa.rules.attribution import attributed
    for base, ds, fs in os.walk(os.path.join(REPO, 'nephosem')):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            rel = os.path.relpath(os.path.join(base, f), REPO)
            if any(s in rel for s in skip):
                continue
            tree = ast.parse(open(os.path.join(REPO, rel), encoding='utf-8').read())
            todo = [('', tree)]
            while todo:
                pre, nd = todo.pop()
                for n in nd.body:
                    if isinstance(n, ast.ClassDef):
                        todo.append((pre + n.name + '.', n))
                    elif isinstance(n, ast.FunctionDef):
                        q = pre + n.name
                        if a.f and a.f not in rel + ':' + q:
                            continue
                        for i, (op, _) in enumerate(sites(n)):
                            if a.o and op not in a.o.split(','):
                                continue
                            jobs.append((rel, q, i))
    rng = random.Random(a.s)
    rng.shuffle(jobs)
    print(len(jobs), 'mutants available')
    jobs = jobs[:a.n]
    if a.d:
        jobs = [(r, q, (i, rng.randrange(10000))) for r, q, i in jobs]
    C = collections.defaultdict(collections.Counter)
    t = collections.Counter()
    with multiprocessing.Pool(8, maxtasksperchild=50) as p:
        for q, op, st, why, df in p.imap_unordered(one, jobs):
            C[op][st] += 1
            t[st] += 1
            if st in a.v.split(','):
                print('%s %s %s' % (st, op, q))
                for l in df:
                    print('      ' + l[:200])
                for w in why[:5]:
                    print('         ~ ' + w)
    for op in sorted(C):
        print('%-14s %s' % (op, dict(C[op])))
    print(dict(t))
