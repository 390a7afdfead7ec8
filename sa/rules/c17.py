"""C17: text is read and written in the configured encoding.

Encoding rule (E1): the encoding of every text file that is opened, read or written by the live modules
derives from an `encoding` argument, an encoding attribute or the encoding settings (exceptions are
listed with their reason).  Direction rule (E2): files opened for reading do not use the output encoding,
files opened for writing do not use the input encoding.  Forwarding rule (E3): a function that has an
encoding passes it to every package function that takes one.  Instance rule (R): no decided difference
of the normal form that involves an encoding."""
import ast

from ..model import AnalysisBroken, dotted
from ..nf import subterms
from .common import refcmp, reference, kind_rule
from .flow import Deps, callees, argmap

FLOOR = 40

# (function suffix, reason): opens without an encoding
EXCEPT = {
    'nephosem.core.graph.PatternGraph.read_graphml': 'graphml templates are ASCII regular expressions and carry no encoding option',
    'nephosem.core.graph.PatternGraph.read_csv': 'encoding arrives in the keyword arguments for pandas',
}
TEXT_OPEN = {'open', 'codecs.open', 'io.open'}
PANDAS = {'read_csv', 'to_csv'}


def ext_name(prog, f, call):
    d = dotted(call.func)
    if d is None:
        return None
    head = d.split('.')[0]
    r = prog.lookup(f.mod.name, head)
    if isinstance(r, tuple) and r and r[0] == 'ext':
        return '.'.join([r[1]] + d.split('.')[1:])
    return d


def open_sites(prog, f):
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        nm = ext_name(prog, f, n)
        if nm in TEXT_OPEN:
            mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
            pos = 2 if nm == 'codecs.open' else 3
            enc = n.args[pos] if len(n.args) > pos else next((k.value for k in n.keywords if k.arg == 'encoding'), None)
            star = any(k.arg is None for k in n.keywords)
            yield n, mode, enc, star, nm
        elif isinstance(n.func, ast.Attribute) and n.func.attr in PANDAS and not is_pkg(prog, f, n):
            enc = next((k.value for k in n.keywords if k.arg == 'encoding'), None)
            star = any(k.arg is None for k in n.keywords)
            yield n, ast.Constant('r' if n.func.attr == 'read_csv' else 'w'), enc, star, n.func.attr


def constant(prog, f, d, name):
    """the constant a local or module-level name stands for"""
    vs = d.defs.get(name)
    if vs is None and name not in d.pnames:
        r = prog.lookup(f.mod.name, name)
        vs = r[1].assigns[r[2]] if isinstance(r, tuple) and r and r[0] == 'assign' else None
    return vs[0] if vs and len(vs) == 1 and isinstance(vs[0], ast.Constant) else None


def is_pkg(prog, f, n):
    b = n.func.value
    if isinstance(b, ast.Name):
        r = prog.lookup(f.mod.name, b.id)
        return not (isinstance(r, tuple) and r and r[0] == 'ext') and r is not None
    return False


def enc_source(deps):
    out = set()
    for x in deps:
        s = x[1] if isinstance(x, tuple) else x
        if 'encoding' in s or s in ('enc', 'kwargs'):
            out.add(s)
    return out


def run(ctx):
    prog = ctx.prog
    ctx.rule('E1', 'the encoding of each text file derives from an encoding option, attribute or setting')
    ctx.rule('E2', 'reads do not use the output encoding, writes do not use the input encoding')
    ctx.rule('E3', 'an encoding is passed on to each package function that takes one')
    rc = refcmp(ctx)
    nsites = 0
    for f in prog.funcs:
        if f.mod.name == 'nephosem.deprel' or f.mod.name.startswith('nephosem.deprel.') or '.tests' in f.mod.name:
            continue
        d = None
        k = 0
        for n, mode, enc, star, nm in open_sites(prog, f):
            ctx.functions.add(f.qual)
            d = d or Deps(f)
            k += 1
            key = '%s:%s#%d' % (f.qual, nm, k)
            if isinstance(mode, ast.Name):
                mode = constant(prog, f, d, mode.id) or mode
            m = mode.value if isinstance(mode, ast.Constant) else None
            if isinstance(m, str) and 'b' in m:
                ctx.ok('E1', key, 'binary')
                continue
            if mode is not None and m is None:
                nsites += 1
                ctx.undecided('E1', key, 'mode is not constant')
                continue
            nsites += 1
            loc = '%s:%d' % (f.mod.path, n.lineno)
            if enc is None:
                ref = rc.rf.get(f.qual)
                if star or f.qual in EXCEPT:
                    ctx.ok('E1', key, EXCEPT.get(f.qual, 'keyword arguments'))
                elif ref is None:
                    ctx.undecided('E1', key, 'helper without an encoding')
                else:
                    ctx.bad('E1', key, loc, 'a text file is opened without an encoding')
                continue
            deps = d.of(enc)
            src = enc_source(deps)
            if not src:
                consts = [x for x in deps if isinstance(x, tuple)]
                if f.qual in EXCEPT:
                    ctx.ok('E1', key, EXCEPT[f.qual])
                elif f.qual in rc.rf and rc_literal(rc, f.qual, enc):
                    ctx.ok('E1', key, 'reviewed: a fixed encoding')
                elif consts and not [x for x in deps if not isinstance(x, tuple)]:
                    if f.qual in rc.rf:
                        ctx.bad('E1', key, loc, 'the encoding is fixed to %s' % ast.unparse(enc))
                    else:
                        ctx.undecided('E1', key, 'helper with a fixed encoding')
                else:
                    ctx.undecided('E1', key, 'the source of the encoding is not decided')
                continue
            ctx.ok('E1', key)
            # direct sources only: what the expression itself names
            named = set()
            for x in ast.walk(enc):
                if isinstance(x, ast.Attribute):
                    named.add(x.attr)
                elif isinstance(x, ast.Name):
                    named.add(x.id)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                    named.add(x.value)
            rd = m is None or m.startswith('r')
            wrong = {'output_encoding', 'outfile-encoding'} if rd else {'input_encoding', 'file-encoding'}
            if named & wrong:
                ctx.bad('E2', key, loc, 'a file opened for %s uses %s' % ('reading' if rd else 'writing', ', '.join(sorted(named & wrong))))
            else:
                ctx.ok('E2', key)
        # E3
        ps = [p for p in f.params() + f.kwonly() if 'encoding' in p]
        me = f.cls is not None and any(isinstance(x, ast.Attribute) and x.attr.endswith('encoding') for x in ast.walk(f.cls.node))
        if ps or me:
            d = d or Deps(f)
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                for g, skip in callees(prog, f, n):
                    if 'encoding' not in g.params()[skip:] + g.kwonly():
                        continue
                    am, hid = argmap(g, skip, n)
                    key = '%s -> %s' % (f.qual, g.qual)
                    if 'encoding' in am:
                        if enc_source(d.of(am['encoding'])):
                            ctx.ok('E3', key)
                        elif isinstance(am['encoding'], ast.Constant) and ps:
                            ctx.bad('E3', key, '%s:%d' % (f.mod.path, n.lineno), 'passes a fixed encoding instead of its own')
                        else:
                            ctx.undecided('E3', key, 'the source of the encoding is not decided')
                    elif hid:
                        ctx.undecided('E3', key, 'keyword arguments')
                    else:
                        r = rc.rf.get(f.qual)
                        if r is not None and passes(rc.ref, r, g.name):
                            ctx.bad('E3', key, '%s:%d' % (f.mod.path, n.lineno), 'does not pass its encoding to %s' % g.qual)
                        elif r is not None and ps and not reviewed_without(rc.ref, r, g.name):
                            ctx.bad('E3', key, '%s:%d' % (f.mod.path, n.lineno), 'does not pass its encoding to %s' % g.qual)
                        else:
                            ctx.ok('E3', key, 'reviewed: the encoding plays no role there')
    if nsites < 14:
        raise AnalysisBroken('only %d text files are opened' % nsites)

    def keep(q, r):
        return 'encoding' in repr(r[1]) or 'encoding' in str(r[3])
    qs = [q for q in sorted(rc.rf) if not q.startswith('nephosem.deprel.') and 'encoding' in ast.dump(rc.rf[q].node)]
    reference(ctx, keep=keep, quals=qs, floor=25)
    kind_rule(ctx, rc, set(qs))


def passes(prog, f, name):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            for g, skip in callees(prog, f, n):
                if g.name == name and 'encoding' in argmap(g, skip, n)[0]:
                    return True
    return False


def reviewed_without(prog, f, name):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            for g, skip in callees(prog, f, n):
                if g.name == name:
                    return True
    return False


def rc_literal(rc, q, enc):
    if not isinstance(enc, ast.Constant):
        return False
    return any(isinstance(e, ast.Constant) and e.value == enc.value for _, _, e, _, _ in open_sites(rc.ref, rc.rf[q]))
