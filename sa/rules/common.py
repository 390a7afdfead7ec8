"""Shared parts of the rule modules."""
import ast

from ..model import AnalysisBroken
from ..refcmp import RefCmp
from ..equiv import EQ, DIFF, UNK
from ..nf import subterms
from .attribution import attributed
from . import kinds

RULE_R = ('every reviewed function the property rests on is, in the current tree, equivalent to its reviewed instance in the '
          'gated value-dependence normal form (effects, their order, guards, loop recurrences, returned values); a decided '
          'difference in a place where no part of the function is beyond the term algebra is a violation')

_RC = {}


def refcmp(ctx):
    k = id(ctx.prog)
    if k not in _RC:
        _RC[k] = RefCmp(ctx.prog)
    return _RC[k]


def loc_of(res, default):
    for r in res:
        if r[0] == DIFF and r[2]:
            return r[2]
    return default


def describe(res, n=3):
    out = []
    for r in res:
        if r[0] == DIFF:
            w = str(r[3])
            out.append(w if len(w) < 400 else w[:400] + '...')
        if len(out) >= n:
            break
    return ' | '.join(out)


def reference(ctx, keep=None, floor=1, quals=None, prop=None):
    """the reviewed-instance rule on the functions attributed to the property.
    keep(qual, result) -> bool restricts it to the differences of the property's kind"""
    ctx.rule('R', RULE_R)
    rc = refcmp(ctx)
    qs = quals if quals is not None else attributed(prop or ctx.prop, sorted(rc.rf))
    if len(qs) < floor:
        raise AnalysisBroken('only %d reviewed functions are attributed to the property, expected %d' % (len(qs), floor))
    V = rc.verdicts()
    for q in qs:
        st, res = V[q]
        if st == 'GONE':
            gone(ctx, rc, q)
            continue
        ctx.functions.add(q)
        f = rc.cf[q]
        if st == 'SAME':
            if ctx.tier == 'thorough':
                s2 = rc.compare(q)[0]
                if s2 == DIFF:
                    raise AnalysisBroken('internal: identical text of %s compared as different' % q)
                ctx.ok('R', q, 'identical text; normal form re-derived from both trees: %s' % s2)
            else:
                ctx.ok('R', q, 'identical text and name resolution')
        elif st == EQ:
            ctx.ok('R', q, 'edited; equal normal form')
        elif st == UNK:
            ctx.undecided('R', q, 'restructured beyond the term algebra: %s' % '; '.join(str(r[3])[:120] for r in res[:3]))
        else:
            rs = [r for r in res if r[0] == DIFF and (keep is None or keep(q, r))]
            if rs:
                ctx.bad('R', q, loc_of(rs, f.loc), 'differs from the reviewed instance: ' + describe(rs))
            else:
                ctx.ok('R', q, 'edited; the differences are of another kind')
    if keep is None and quals is None:
        kind_rule(ctx, rc, set(qs))
    for q, line, what in rc.class_diffs():
        if any(x.startswith(q.rsplit('.', 1)[0] + '.') for x in qs) and keep is None:
            ctx.bad('R', q, q, what)
    return rc


def kind_rule(ctx, rc, have):
    ctx.rule('K', 'a decided difference in any other function that is of the kind of the property')
    for q, (st, res) in sorted(rc.verdicts().items()):
        if q in have or st != DIFF or q.startswith('nephosem.deprel.'):
            continue
        rs = [r for r in res if r[0] == DIFF and ctx.prop in kinds.of(rc, q, r)]
        if rs:
            ctx.bad('K', q, loc_of(rs, rc.cf[q].loc), 'differs from the reviewed instance: ' + describe(rs))


def gone(ctx, rc, q):
    name = q.rsplit('.', 1)[-1]
    try:
        if rc.cur.func(q) is not None:
            ctx.undecided('R', q, 'now defined elsewhere')
            return
    except AnalysisBroken:
        pass
    if name.startswith('_') and not name.startswith('__'):
        ctx.undecided('R', q, 'private function no longer exists')
        return
    if rc.rf[q].mod.name.startswith('nephosem.deprel'):
        return
    if not referenced(ctx.prog, name) and not documented(rc, q):
        ctx.undecided('R', q, 'function no longer exists and nothing refers to its name')
        return
    raise AnalysisBroken('reviewed function %s no longer exists' % q)


def referenced(prog, name):
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name or \
                    isinstance(n, ast.alias) and n.name == name or isinstance(n, ast.Constant) and n.value == name:
                return True
    return False


def documented(rc, q):
    """the reviewed function is part of the interface of its module: exported, or a public method, or called by nothing else"""
    f = rc.rf[q]
    if f.cls is not None:
        return True
    return not any(isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name
                   for m in rc.ref.modules.values() for n in ast.walk(m.tree)) or any(
        isinstance(n, ast.Constant) and n.value == f.name for n in ast.walk(f.mod.tree))
