"""C07: operations do not modify their operands or share state with them.

A1: a public function of the reviewed tree changes no argument, and a method no attribute of its object that the
constructor makes, unless the reviewed function changes it too (effects.py: in-place changes of everything that may be
an argument or part of one, through local names and through helpers).  A2: a constructor does not keep an argument that
the reviewed one copied.  Rule R: the functions that compute with matrices, vocabularies, settings and type nodes are
equivalent to their reviewed instances; rule K: copies in any other function; hard rules K1-K5: state of one call does
not reach a later one."""
from .common import refcmp, reference
from .effects import Effects, live

FLOOR = 200


def public(f):
    return f.outer is None and (not f.name.startswith('_') or f.name.startswith('__') and f.name.endswith('__'))


def made(prog_effects, cls):
    """attributes that the constructors of the class assign"""
    out = set()
    for c in cls.mro():
        i = c.methods.get('__init__')
        if i is not None and i.params():
            out |= {a for p, a in prog_effects.mut.get(i.qual, ()) if p == i.params()[0] and a}
    return out


def run(ctx):
    ctx.rule('A1', 'in-place changes of arguments and of the object are within those of the reviewed function')
    ctx.rule('A2', 'a constructor keeps no argument that the reviewed constructor copied')
    rc = refcmp(ctx)
    er, ec = Effects(rc.ref), Effects(rc.cur)
    n = 0
    for q in sorted(rc.common):
        rf, cf = rc.rf[q], rc.cf[q]
        if not live(rf.mod.name) or not public(rf):
            continue
        n += 1
        ctx.functions.add(q)
        rp, cp = rf.params() + rf.kwonly(), cf.params() + cf.kwonly()
        ren = {}
        for i, p in enumerate(cf.params()):
            ren[p] = p if p in rp else rf.params()[i] if i < len(rf.params()) and rf.params()[i] not in cp else p
        ctx.ok('A1', q)
        for p, a in sorted(ec.mut[q]):
            r = ren.get(p, p)
            if (r, a) in er.mut[q] or (r, '') in er.mut[q] or r not in rp:
                continue
            if rf.cls is not None and rf.params() and not rf.is_static and r == rf.params()[0]:
                if rf.name in ('__init__', '__new__', '__setstate__', '__enter__', '__exit__', '__del__') or a not in made(er, rf.cls):
                    continue
                what = 'changes %s of its object in place' % a
            elif any(p2 == r for p2, _ in er.mut[q]):
                continue
            else:
                what = 'changes its argument %s%s in place' % (p, '.' + a if a else '')
            ctx.bad('A1', q, ec.site.get((q, p, a), cf.loc), what)
        if rf.name == '__init__':
            was, now = er.keep[q], ec.keep[q]
            for at, p, k in sorted(now):
                r = ren.get(p, p)
                if k == 'a' and (at, r, 'c') in was and (at, r, 'a') not in was:
                    ctx.bad('A2', q, cf.loc, 'keeps its argument %s as %s instead of a copy' % (p, at))
    reference(ctx)
