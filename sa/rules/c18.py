"""C18: an option a public operation accepts reaches the component that implements it.

Forwarding rule (F1): the reviewed forwarding edges (caller, callee, callee parameter, caller option) --
the callee's parameter depends, through the caller's definitions, on an option or an attribute of the
caller -- are re-derived from the reviewed instances; in the current tree every call of that callee in
the caller still depends on the option.  Liveness rule (F2): every option a reviewed function reads is
still read (directly or through a helper).  Instance rule (R): no decided difference of the normal form
in which the influence of an option on an effect or a result is gained or lost; no reviewed default of
an option changes."""
import ast
import fnmatch

from ..model import AnalysisBroken
from ..equiv import DIFF
from ..nf import subterms
from .common import refcmp, reference, kind_rule
from .flow import Deps, callees, argmap

FLOOR = 300
IGNORED = {'verbose', 'prog_bar', 'self', 'cls', 'indent'}


def edges(prog, f, ctrl):
    """{(callee name, parameter): [(deps, line)]}, hidden callee names"""
    d = Deps(f, weak=ctrl)
    out, hidden = {}, set()
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        for g, skip in callees(prog, f, n):
            nm = g.qual
            m, h = argmap(g, skip, n)
            if h:
                hidden.add(nm)
            for p in g.params()[skip:] + g.kwonly():
                e = m.get(p)
                out.setdefault((nm, p), []).append((None if e is None else d.of(e) | d.around(n) if ctrl else d.of(e, ctrl=False), n.lineno, tuple(g.params()[skip:]).index(p)
                                                    if p in g.params()[skip:] else p, h))
    return out, hidden


def live_params(f, used=False):
    """names that are read; used: not only to compute a local that nothing reads"""
    skip = set()
    for _ in range(5 if used else 1):
        s = set()
        todo = [f.node]
        while todo:
            n = todo.pop()
            if id(n) in skip:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                s.add(n.id)
            todo.extend(ast.iter_child_nodes(n))
        before = len(skip)
        for n in ast.walk(f.node) if used else ():
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t, v = n.targets[0], n.value
                pairs = zip(t.elts, v.elts) if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) else [(t, v)]
                skip |= {id(y) for x, y in pairs if isinstance(x, ast.Name) and x.id not in s}
        if len(skip) == before:
            break
    return s


def only_logged(f, p):
    """the parameter only reaches log messages or progress output"""
    parents = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load):
            x = n
            logged = False
            while x in parents:
                x = parents[x]
                if isinstance(x, ast.Call):
                    t = x.func
                    nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else ''
                    if nm in ('info', 'warning', 'error', 'debug', 'print', 'critical'):
                        logged = True
                if isinstance(x, ast.stmt):
                    break
            if not logged:
                return False
    return True


def params_in(v, names):
    return {t[1] for t in subterms(v) if len(t) == 2 and t[0] == 'sym' and t[1] in names} if isinstance(v, tuple) else set()


def run(ctx):
    ctx.rule('F1', 'every call of the callee in the caller still passes a value that depends on the option')
    ctx.rule('F2', 'every option that is read is still read')
    rc = refcmp(ctx)
    V = rc.verdicts()
    forwarding = set()
    nedge = 0
    for q in sorted(rc.rf):
        if q.startswith('nephosem.deprel.'):
            continue
        a = rc.rf[q]
        opts = [p for p in a.params() + a.kwonly() if p not in IGNORED]
        if a.cls is not None and not a.is_static and opts and a.params() and opts[0] == a.params()[0]:
            opts = opts[1:]
        b = rc.cf.get(q)
        ea, ha = edges(rc.ref, a, False)
        fw = {}
        for (nm, p), sites in ea.items():
            for o in opts:
                if all(d is not None and o in d for d, _, _, _ in sites):
                    fw.setdefault((nm, p), set()).add(o)
        if opts and fw:
            forwarding.add(q)
        if b is None:
            continue
        if q in rc.sigchanged:
            ctx.undecided('F2', q, 'signature changed')
            continue
        same = V[q][0] in ('SAME', 'EQ')
        pm = dict(zip(a.params() + a.kwonly(), b.params() + b.kwonly()))
        eb, hb = edges(rc.cur, b, True)
        la, lb = live_params(a, True), live_params(b)
        for o in opts:
            if o in la and not only_logged(a, o):
                if pm[o] in lb:
                    ctx.ok('F2', '%s(%s)' % (q, o))
                elif same or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars') for n in ast.walk(b.node)):
                    ctx.undecided('F2', '%s(%s)' % (q, o))
                else:
                    ctx.bad('F2', '%s(%s)' % (q, o), b.loc, 'the option %r is accepted but never read' % pm[o])
        for (nm, p), os_ in sorted(fw.items()):
            for o in sorted(os_):
                nedge += 1
                k = '%s(%s) -> %s(%s)' % (q, o, nm, p)
                pos = ea[(nm, p)][0][2]
                sites = eb.get((nm, p))
                if sites is None:
                    for (n2, p2), ss in eb.items():
                        if n2 == nm and ss[0][2] == pos:
                            sites = ss
                if sites is None or nm in hb and nm not in ha:
                    ctx.undecided('F1', k, 'the call moved')
                    continue
                vis = [s for s in sites if s[0] is not None or not s[3]]
                bad = [s for s in vis if s[0] is None or pm[o] not in s[0]]
                if bad and not same and (len(bad) == len(vis) or len(vis) == len(ea[(nm, p)])):
                    if any(s[0] is None for s in bad) or not moved_through_self(bad):
                        ctx.bad('F1', k, '%s:%d' % (b.mod.path, bad[0][1]), 'parameter %r of %s no longer depends on option %r' % (
                            p, nm, pm[o]))
                    else:
                        ctx.undecided('F1', k, 'passed through an attribute')
                else:
                    ctx.ok('F1', k)
    if nedge < 150:
        raise AnalysisBroken('only %d forwarding edges derived from the reviewed instances' % nedge)

    def keep(q, r):
        f = rc.rf[q]
        ps = {p for p in f.params() + f.kwonly() if p not in IGNORED}
        if f.cls is not None and f.params():
            ps.discard(f.params()[0])
        if 'default of parameter' in str(r[3]):
            return True
        for pr in r[1]:
            if isinstance(pr, tuple) and len(pr) == 2 and params_in(pr[0], ps) != params_in(pr[1], ps):
                return True
        return False
    reference(ctx, keep=keep, quals=sorted(forwarding), floor=90)
    whole = [q for q in rc.rf if fnmatch.fnmatchcase(q, 'nephosem.core.handler.*.__init__')]
    reference(ctx, quals=sorted(whole), floor=2)
    kind_rule(ctx, rc, forwarding | set(whole))


def moved_through_self(sites):
    return any(isinstance(x, str) and x.startswith('self.') for d, _, _, _ in sites for x in (d or ()))
