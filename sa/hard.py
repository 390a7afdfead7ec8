"""Decided differences that stay decided when the rest of the function is restructured beyond the term algebra.

H1  a local is read that no path has assigned before: the function fails whenever it gets there
H2  a handler that catches every error and goes on is new in the module
H3  the reviewed function rejects something with an explicit error; neither it, nor any function it newly calls,
    nor any other changed function of its module raises that error any more
H4  a sample without replacement is drawn item by item, with replacement
K1-K4  values of one call that reach a later one (kept.py)
"""
import ast

from .unbound import unbound_reads
from .equiv import DIFF, LOGGERISH
from .kept import Kept

BROAD = {'Exception', 'BaseException'}


def only_logs(body):
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Name) and f.id == 'print' or isinstance(f, ast.Attribute) and f.attr in LOGGERISH | {
                    'update', 'close', 'set_description'}:
                continue
        return False
    return True


def ends(body):
    """does every path through the handler leave with an error?"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, ast.Raise):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, (ast.With, ast.For)):
        return ends(s.body) if isinstance(s, ast.With) else False
    if isinstance(s, ast.Try):
        return ends(s.finalbody) or ends(s.body) and all(ends(h.body) for h in s.handlers)
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
        return s.value.func.attr in ('exit', '_exit', 'abort')
    return False


def uses(body):
    """the handler hands the error on as a value (result queue, list of failures): not judged here"""
    return False


def swallowing(fn):
    """handlers of the function that catch everything and go on, with the line"""
    out = []
    for n in ast.walk(fn):
        if not isinstance(n, ast.Try):
            continue
        if only_logs(n.body):
            continue
        for h in n.handlers:
            t = h.type
            names = [x for x in ([t] if not isinstance(t, ast.Tuple) else t.elts)] if t is not None else []
            broad = t is None or any(isinstance(x, ast.Name) and x.id in BROAD for x in names)
            if not broad or ends(h.body):
                continue
            if h.name and any(isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Load)
                              for s in h.body if not only_logs([s]) for x in ast.walk(s)):
                continue        # the error object is kept
            if any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s)):
                continue
            out.append(h.lineno)
    return out


def raised(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) and n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            if isinstance(e, ast.Name) and e.id[:1].isupper() and e.id != 'NotImplementedError':
                out.add(e.id)
        elif isinstance(n, ast.Raise):
            out.add('<reraised>')
        elif isinstance(n, ast.Assert):
            out.add('AssertionError')
    return out


def called(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            out.add(n.attr)
    return out


REDRAW = {'choices', 'choice', 'randint', 'randrange', 'integers'}
ONCE = {'sample', 'shuffle', 'permutation'}


def draws(fn):
    """the functions of a random module that are called or passed on"""
    return {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and n.attr in REDRAW | ONCE
            and isinstance(n.value, (ast.Name, ast.Attribute)) and (getattr(n.value, 'id', None) or getattr(n.value, 'attr', '')) in ('random', 'rng')}


class Hard:
    def __init__(self, rc, changed):
        self.rc = rc
        self.changed = changed
        self.cur_only = [f for f in rc.cur.funcs if f.qual not in rc.rf]
        self.byname = {}
        for f in rc.cur.funcs:
            self.byname.setdefault(f.name, []).append(f)
            if f.name == '__init__' and f.cls is not None:
                self.byname.setdefault(f.cls.name, []).append(f)
        self.kept = Kept(rc)
        self.swr = self.per_module(rc.ref)
        self.swc = self.per_module(rc.cur)

    @staticmethod
    def per_module(prog):
        out = {}
        for f in prog.funcs:
            n = len(swallowing(f.node))
            out[f.mod.name] = out.get(f.mod.name, 0) + n
        return out

    def closure(self, f):
        """cur-only functions that f reaches through cur-only functions"""
        only = {}
        for g in self.cur_only:
            only.setdefault(g.name, []).append(g)
        seen, todo = {}, [f]
        while todo:
            g = todo.pop()
            for nm in called(g.node):
                for h in only.get(nm, ()):
                    if h.qual not in seen:
                        seen[h.qual] = h
                        todo.append(h)
        return list(seen.values())

    def of(self, q):
        rf, cf = self.rc.rf[q], self.rc.cf[q]
        out = []
        fs = [cf] + self.closure(cf)
        ref_un = {n for n, _ in unbound_reads(rf.node)}
        for g in fs:
            for n, line in unbound_reads(g.node):
                if n not in ref_un:
                    out.append((DIFF, ((('local', n), ('unbound', n)),), '%s:%d' % (g.mod.path, line),
                                '%r is read before anything can have been assigned to it' % n))
        m = cf.mod.name
        own = [(g, l) for g in fs for l in swallowing(g.node)]
        if len(own) > len(swallowing(rf.node)) and sum(
                self.swc.get(x, 0) for x in {g.mod.name for g in fs}) > sum(
                self.swr.get(x, 0) for x in {g.mod.name for g in fs}):
            g, l = own[-1]
            out.append((DIFF, ((('handler', 'none'), ('handler', 'swallows')),), '%s:%d' % (g.mod.path, l),
                        'a new handler swallows every error'))
        for line, k, what in self.kept.of(q, fs):
            out.append((DIFF, ((('state', 'of one call'), ('state', 'kept')),), '%s:%d' % (cf.mod.path, line), what))
        was, now = draws(rf.node), set()
        for g in fs:
            now |= draws(g.node)
        if 'sample' in was and now & REDRAW and not now & ONCE and not was & REDRAW:
            out.append((DIFF, ((('random', 'sample'), ('random',) + tuple(sorted(now & REDRAW))),), cf.loc,
                        'what was drawn without replacement is drawn by random.%s' % sorted(now & REDRAW)[0]))
        gone = raised(rf.node)
        for g in fs:
            gone = gone - raised(g.node)
        if gone:
            new = called(cf.node) - called(rf.node)
            for g in fs[1:]:
                new |= called(g.node) - called(rf.node)
            for nm in new:
                for h in self.byname.get(nm, ()):
                    gone = gone - raised(h.node)
            for x in self.changed:
                if self.rc.cf[x].mod.name == m and x != q:
                    gone = gone - (raised(self.rc.cf[x].node) - raised(self.rc.rf[x].node))
            if '<reraised>' in gone and not any(isinstance(n, ast.ExceptHandler) for n in ast.walk(cf.node)):
                gone = gone - {'<reraised>'}
            if gone and not any(h for h in ast.walk(cf.node) if isinstance(h, ast.Raise) and not self.named(h)):
                out.append((DIFF, ((('raise',) + tuple(sorted(gone)), ('missing',)),), cf.loc,
                            'explicit rejection with %s is gone' % ', '.join(sorted(gone))))
        return out

    @staticmethod
    def named(h):
        e = h.exc
        if e is None:
            return True
        e = e.func if isinstance(e, ast.Call) else e
        return isinstance(e, ast.Name) and e.id[:1].isupper()
