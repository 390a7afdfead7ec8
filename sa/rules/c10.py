"""C10: temporary files stay in directories the run created.

D1: every call that removes or empties something (os.remove, unlink, rmdir, removedirs, rename, replace,
shutil.rmtree, shutil.move, and package functions that pass a parameter on to one of them) gets a path whose origin
- the def-use closure through locals, attributes of the class and package functions - contains a name made for this
run (mkdtemp, mkstemp, TemporaryDirectory, a process id, ...) or comes in as an argument.  A path that is built from
fixed or configured directories only is a violation.  D2: no reviewed function that removed nothing removes
something now, unless a removal moved there.  Rule R: the functions that make, fill and clean temporary directories
are equivalent to their reviewed instances."""
import ast

from ..model import AnalysisBroken, dotted, ClassInfo, FuncInfo
from .common import refcmp, reference
from .flow import Deps, callees, argmap

FLOOR = 60
REMOVE = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.replace', 'os.renames', 'os.truncate',
          'shutil.rmtree', 'shutil.move'}
RUN = {'mkdtemp', 'mkstemp', 'TemporaryDirectory', 'NamedTemporaryFile', 'TemporaryFile', 'getpid', 'pid', 'uuid4', 'uuid1', 'mktemp',
       'token_hex', 'subtmpdir', 'current_process'}
FIXED = {'expanduser', 'gettempdir', 'tmpdir', 'output_path', 'corpus_path', 'getcwd', 'homedir', 'rootdir', 'curdir', 'abspath', 'environ'}
# functions of the libraries that only put paths together
PLAIN = FIXED | {'join', 'path', 'os', 'tempfile', 'format', 'str', 'dirname', 'basename', 'splitext', 'normpath', 'realpath', 'listdir', 'glob',
                 'now', 'strftime', 'datetime', 'self', 'nephosem', 'settings', 'get', 'rsplit', 'split', 'sorted', 'iglob', 'relpath', 'time', 'int',
                 'enumerate', 'list', 'replace', 'strip', 'lower', 'shutil', 'exists', 'isfile', 'isdir', 'endswith', 'startswith', 'range', 'len'}


def live(name):
    return not (name == 'nephosem.deprel' or name.startswith(('nephosem.deprel.', 'nephosem.tests')))


def ext_name(prog, f, fn):
    d = dotted(fn)
    if d is None:
        return None
    r = prog.lookup(f.mod.name, d.split('.')[0])
    if isinstance(r, tuple) and r and r[0] == 'ext':
        return '.'.join([r[1]] + d.split('.')[1:])
    return d if r is None else None


class Origin:
    """what the value of an expression is made of, as identifiers, through locals, attributes and package functions"""

    def __init__(self, prog):
        self.prog = prog
        self.deps = {}

    def d(self, f):
        if f.qual not in self.deps:
            self.deps[f.qual] = Deps(f)
        return self.deps[f.qual]

    def of(self, f, e, seen=None, depth=0):
        """(identifiers, parameters of f, everything resolved)"""
        seen = seen if seen is not None else set()
        ids, ps, ok = set(), set(), True
        todo = [e]
        d = self.d(f)
        while todo:
            x = todo.pop()
            for n in ast.walk(x):
                if isinstance(n, ast.Call):
                    gs = callees(self.prog, f, n)
                    for g, _ in gs:
                        if ('f', g.qual) in seen or depth > 4:
                            continue
                        seen.add(('f', g.qual))
                        for r in ast.walk(g.node):
                            if isinstance(r, (ast.Return, ast.Yield)) and r.value is not None:
                                i2, _, o2 = self.of(g, r.value, seen, depth + 1)
                                ids |= i2
                                ok = ok and o2
                    if not gs and isinstance(n.func, ast.Attribute):
                        ids.add(n.func.attr)
                elif isinstance(n, ast.Attribute):
                    ids.add(n.attr)
                    if isinstance(n.value, ast.Name) and n.value.id == d.me and f.cls is not None and ('a', n.attr) not in seen:
                        seen.add(('a', n.attr))
                        for c in f.cls.mro():
                            for g in c.methods.values() if isinstance(c, ClassInfo) else ():
                                if g.name == n.attr and g.is_property:
                                    for r in ast.walk(g.node):
                                        if isinstance(r, ast.Return) and r.value is not None:
                                            i2, _, o2 = self.of(g, r.value, seen, depth + 1)
                                            ids |= i2
                                            ok = ok and o2
                                for v in self.d(g).defs.get(self.d(g).me + '.' + n.attr, ()) if self.d(g).me else ():
                                    i2, p2, o2 = self.of(g, v, seen, depth + 1)
                                    ids |= i2
                                    ok = ok and o2 and not p2
                elif isinstance(n, ast.Name):
                    if n.id in d.pnames or n.id in (d.kwarg, d.vararg):
                        if n.id != d.me:
                            ps.add(n.id)
                    if n.id not in d.defs and n.id not in d.pnames:
                        ids.add(n.id)
                        r = self.prog.lookup(f.mod.name, n.id)
                        if isinstance(r, tuple) and r and r[0] == 'assign' and ('g', n.id) not in seen:
                            seen.add(('g', n.id))
                            for v in r[1].assigns[r[2]]:
                                if v is None:
                                    ok = False
                                else:
                                    ids |= {y.attr if isinstance(y, ast.Attribute) else y.id for y in ast.walk(v)
                                            if isinstance(y, (ast.Attribute, ast.Name))}
                    if ('n', f.qual, n.id) not in seen:
                        seen.add(('n', f.qual, n.id))
                        todo.extend(d.defs.get(n.id, ()))
        return ids, ps, ok


def removals(prog, f, destroyers):
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        nm = ext_name(prog, f, n.func)
        if nm in REMOVE and n.args:
            yield n, n.args[0], nm
        else:
            for g, skip in callees(prog, f, n):
                for p in destroyers.get(g.qual, ()):
                    am, _ = argmap(g, skip, n)
                    if p in am:
                        yield n, am[p], g.name


def find(prog):
    """package functions that remove what a parameter names, and all removal sites"""
    org = Origin(prog)
    destroyers = {}
    for _ in range(4):
        new = {}
        for f in prog.funcs:
            if not live(f.mod.name):
                continue
            for n, a, nm in removals(prog, f, destroyers):
                ids, ps, ok = org.of(f, a)
                if ps and not ids & RUN:
                    new.setdefault(f.qual, set()).update(ps)
        if new == destroyers:
            break
        destroyers = new
    sites = []
    for f in prog.funcs:
        if live(f.mod.name):
            for n, a, nm in removals(prog, f, destroyers):
                sites.append((f, n, a, nm))
    return org, sites


def run(ctx):
    ctx.rule('D1', 'what is removed lies in a directory that was made for this run, or is named by the caller')
    ctx.rule('D2', 'no reviewed function removes something it did not remove')
    rc = refcmp(ctx)
    org, sites = find(ctx.prog)
    _, rsites = find(rc.ref)
    # calls of new helpers do not count: a removal may have moved into one
    known = {nm for _, _, _, nm in rsites}
    more = len([s for s in sites if s[3] in REMOVE or s[3] in known]) > len(rsites)
    before = {f.qual for f, _, _, _ in rsites}
    if len(sites) < 4:
        raise AnalysisBroken('only %d removals were found' % len(sites))
    k = {}
    for f, n, a, nm in sites:
        k[f.qual] = k.get(f.qual, 0) + 1
        key = '%s:%s#%d' % (f.qual, nm, k[f.qual])
        ctx.functions.add(f.qual)
        loc = '%s:%d' % (f.mod._rel, n.lineno)
        ids, ps, ok = org.of(f, a)
        if ids & RUN:
            ctx.ok('D1', key, 'made for the run: ' + ', '.join(sorted(ids & RUN)))
        elif ps:
            ctx.ok('D1', key, 'named by the caller (%s), whose argument is checked' % ', '.join(sorted(ps)))
        elif ok and ids & FIXED and ids <= PLAIN:
            ctx.bad('D1', key, loc, 'removes %s, a path built from %s, which the run did not create' % (ast.unparse(a), ', '.join(sorted(ids & FIXED))))
        else:
            ctx.undecided('D1', key, 'the origin of the path is not decided (%s)' % ', '.join(sorted(ids - PLAIN))[:100])
        if f.qual in rc.rf and f.qual not in before and more and (nm in REMOVE or nm in known):
            ctx.bad('D2', key, loc, 'removes %s; the reviewed function removes nothing' % ast.unparse(a))
    reference(ctx, floor=25)
