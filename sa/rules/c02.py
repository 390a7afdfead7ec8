"""C02: a failing worker process makes the call fail.

X1: wherever worker processes are started from a Process object, their exit codes are read and a raise depends on
them (in the same class or module).  X2: the result of each asynchronous call of a pool is asked for with a call that
raises the error of the worker; asking whether it was successful must not lead past the error.  X3: no reviewed
function gained a handler that swallows every error (hard rule H2 of the comparison).  Rule R: the functions of the
protocol are equivalent to their reviewed instances."""
import ast

from ..model import AnalysisBroken, dotted
from .common import refcmp, reference

FLOOR = 30
ASYNC = {'apply_async', 'map_async', 'starmap_async', 'submit'}
ASK = {'get', 'result', 'as_completed', 'gather'}


def live(name):
    return not (name == 'nephosem.deprel' or name.startswith(('nephosem.deprel.', 'nephosem.tests')))


def unit(f):
    """the functions that may cooperate with f: its class (with bases), else its module"""
    if f.cls is not None:
        out = []
        for c in f.cls.mro():
            out += list(getattr(c, 'methods', {}).values())
        return out + list(f.mod.functions.values())
    return list(f.mod.functions.values()) + [m for c in f.mod.classes.values() for m in c.methods.values()]


def starts(f):
    return any(isinstance(n, ast.Call) and (dotted(n.func) or '').rsplit('.', 1)[-1] == 'Process' for n in ast.walk(f.node))


def checks(fs):
    """a raise (or assert, or a call that ends in one) whose condition depends on an exit code"""
    tainted, funcs = set(), set()
    n0 = -1
    raising = {g.name for g in fs if any(isinstance(n, ast.Raise) for n in ast.walk(g.node))}

    def has(e, t):
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr in ('exitcode', 'sentinel'):
                return True
            if isinstance(n, ast.Constant) and n.value == 'exitcode':
                return True
            if isinstance(n, ast.Name) and n.id in t:
                return True
            if isinstance(n, ast.Call) and (dotted(n.func) or '').rsplit('.', 1)[-1] in funcs:
                return True
        return False
    found = False
    while n0 != len(tainted) + len(funcs):
        n0 = len(tainted) + len(funcs)
        for g in fs:
            t = {x for q, x in tainted if q == g.qual}
            for n in ast.walk(g.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(x, n.value) for x in n.targets]
                elif isinstance(n, (ast.AugAssign, ast.NamedExpr)):
                    pairs = [(n.target, n.value)]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'extend', 'update'):
                    pairs = [(n.func.value, a) for a in n.args]
                elif isinstance(n, ast.Return) and n.value is not None and has(n.value, t):
                    funcs.add(g.name)
                for tg, v in pairs:
                    if has(v, t):
                        tainted |= {(g.qual, x.id) for x in ast.walk(tg) if isinstance(x, ast.Name)}
                if isinstance(n, (ast.If, ast.While)) and has(n.test, t):
                    # what is collected under the test is tainted as well
                    for s in ast.walk(n):
                        if isinstance(s, ast.Raise):
                            found = True
                        if isinstance(s, ast.Call) and (dotted(s.func) or '').rsplit('.', 1)[-1] in raising:
                            found = True
                        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                            tainted.add((g.qual, s.id))
                        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('append', 'add') and \
                                isinstance(s.func.value, ast.Name):
                            tainted.add((g.qual, s.func.value.id))
                elif isinstance(n, ast.Assert) and has(n.test, t):
                    found = True
                elif isinstance(n, ast.Call) and has(n, t) and (dotted(n.func) or '').rsplit('.', 1)[-1] in raising:
                    found = True
    return found


def run(ctx):
    ctx.rule('X1', 'exit codes of started worker processes decide about a raise')
    ctx.rule('X2', 'results of asynchronous calls are asked for with a call that raises the error of the worker')
    rc = refcmp(ctx)
    n1 = n2 = 0
    for f in ctx.prog.funcs:
        if not live(f.mod.name):
            continue
        loc = f.loc
        if starts(f):
            n1 += 1
            if checks(unit(f)):
                ctx.ok('X1', f.qual)
            else:
                ctx.bad('X1', f.qual, loc, 'starts worker processes, but no error depends on their exit codes')
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ASYNC]
        if calls:
            n2 += 1
            us = unit(f)
            names = {(dotted(n.func) or getattr(n.func, 'attr', '') or '').rsplit('.', 1)[-1] for g in us for n in ast.walk(g.node) if isinstance(n, ast.Call)}
            names |= {n.func.attr for g in us for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
            names |= {n.attr for g in us for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}
            if not names & ASK:
                ctx.bad('X2', f.qual, loc, 'the results of %s are never asked for' % calls[0].func.attr)
            else:
                skip = [n for g in us for n in ast.walk(g.node) if isinstance(n, (ast.If, ast.IfExp, ast.comprehension)) and skips(n)]
                if skip:
                    ctx.bad('X2', f.qual, '%s:%d' % (f.mod._rel, getattr(skip[0], 'lineno', f.node.lineno)),
                            'the result of a failed asynchronous call is skipped')
                else:
                    ctx.ok('X2', f.qual)
    if not n1:
        raise AnalysisBroken('no function starts worker processes')
    reference(ctx, floor=15)


def asks(e, name='successful'):
    return any(isinstance(n, ast.Attribute) and n.attr == name for n in ast.walk(e))


def negated(t):
    return isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)


def quiet(stmts):
    """nothing happens but passing, going on and logging"""
    for s in stmts:
        if isinstance(s, (ast.Pass, ast.Continue)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted(s.value.func) or '').split('.')[0] in ('logger', 'logging', 'print'):
            continue
        return False
    return True


def skips(n):
    """a test of .successful() whose failing side does nothing"""
    if isinstance(n, ast.comprehension):
        return any(asks(t) and not negated(t) for t in n.ifs)
    t = n.test
    if isinstance(n, ast.IfExp) or not (isinstance(t, ast.Call) or negated(t) and isinstance(t.operand, ast.Call)) or not asks(t):
        return False
    c = t.operand if negated(t) else t
    if not (isinstance(c.func, ast.Attribute) and c.func.attr == 'successful'):
        return False
    return quiet(n.body if negated(t) else n.orelse)
