"""C13: every name, attribute, import and call signature the public code relies on resolves.

Scope rule (N1): for every scope of every module reachable from the public package, each implicitly
global name the scope reads is bound at module level (or by a star import, or a builtin).
Self-attribute rule (N2): every attribute read on self is bound somewhere in the class hierarchy.
Package rule (N3): every attribute of a package module or of a package class that is read, and every
`from package import name`, exists.  Call rule (N4): every call whose callee resolves to a package
function or constructor binds its arguments.  Library rule (N5): every attribute read on an imported
library module exists in the installed library (pyright's module-attribute and undefined-variable
rules only, with the repository's interpreter).  Object rule (N6): every attribute name read on any object
is bound somewhere in the package, in a builtin type or in an installed library."""
import ast
import builtins
import glob
import json
import os
import re
import shutil
import subprocess
import symtable

from ..unbound import unbound_reads
from ..model import ClassInfo, FuncInfo, AnalysisBroken, dotted

FLOOR = 900

SKIP_MODULES = ('nephosem.deprel',)          # legacy package that nothing public imports
MODULE_NAMES = {'__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__', '__builtins__'}


def live(prog):
    return {n: m for n, m in prog.modules.items() if not (n == 'nephosem.deprel' or n.startswith('nephosem.deprel.'))}


def run(ctx):
    prog = ctx.prog
    mods = live(prog)
    if len(mods) < 14:
        raise AnalysisBroken('only %d modules reachable' % len(mods))
    ctx.rule('N1', 'each implicitly global name that is read is bound at module level, star-imported or builtin')
    ctx.rule('N2', 'each attribute read on self is bound somewhere in the class hierarchy')
    ctx.rule('N3', 'each attribute read on a package module or class, and each imported package name, exists')
    ctx.rule('N4', 'each call that resolves to a package function or constructor binds its arguments')
    ctx.rule('N6', 'each attribute name that is read on any object is bound in the package, in a builtin type or in an installed library')
    ctx.rule('N5', 'each attribute read on a library module exists in the installed library')
    ctx.rule('N7', 'no local variable is read where no path can have assigned it')
    for n, m in sorted(mods.items()):
        names(ctx, prog, m)
        imports(ctx, prog, m)
    for f in prog.funcs:
        if f.mod.name in mods:
            ctx.functions.add(f.qual)
            selfattrs(ctx, prog, f)
            modattrs(ctx, prog, f)
            calls(ctx, prog, f)
            for nm, line in unbound_reads(f.node):
                ctx.bad('N7', '%s:%s' % (f.qual, nm), '%s:%d' % (f.mod.path, line), 'local %r is read before anything can have been assigned to it' % nm)
            ctx.ok('N7', f.qual)
    anyattrs(ctx, prog, mods)
    library(ctx, prog, mods)
    selftest(ctx)


# ---- N1
def names(ctx, prog, m):
    try:
        top = symtable.symtable(m.src, m.path, 'exec')
    except SyntaxError as e:
        raise AnalysisBroken('cannot parse %s: %s' % (m.path, e))
    bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    glob = set()

    def decl(t):
        for c in t.get_children():
            for s in c.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    glob.add(s.get_name())
            decl(c)
    decl(top)
    bound |= glob
    unknown_star = False
    for st in ast.walk(m.tree):
        if isinstance(st, ast.ImportFrom) and any(a.name == '*' for a in st.names):
            src = resolve_from(m, st)
            if src in prog.modules:
                bound |= set(prog.exported(src))
            else:
                unknown_star = True
    if unknown_star:
        ctx.undecided('N1', m.name, 'star import from a library')
        return
    guarded = name_error_guarded(m.tree)

    def visit(t, path):
        q = m.name + ('.' + '.'.join(path) if path else '')
        for s in t.get_symbols():
            if t.get_type() == 'module':
                isglob = True
            else:
                isglob = s.is_global()
            if not isglob or not s.is_referenced():
                continue
            n = s.get_name()
            if n in bound or hasattr(builtins, n) or n in MODULE_NAMES or (n, ) in guarded:
                ctx.ok('N1', '%s:%s' % (q, n))
                continue
            ctx.bad('N1', '%s:%s' % (m.name, n), '%s:%s' % (m.path, t.get_lineno()), 'name %r, read in %s, is not bound anywhere' % (n, q))
        for c in t.get_children():
            visit(c, path + ([c.get_name()]))
    visit(top, [])


def name_error_guarded(tree):
    """names probed under `try: name ... except NameError`"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                t = h.type
                ns = [dotted(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])] if t is not None else ['NameError']
                if 'NameError' in ns:
                    for s in n.body:
                        for x in ast.walk(s):
                            if isinstance(x, ast.Name):
                                out.add((x.id,))
    return out


def resolve_from(m, st):
    if not st.level:
        return st.module
    parts = m.name.split('.')
    if not m.is_pkg:
        parts = parts[:-1]
    if st.level > 1:
        parts = parts[:-(st.level - 1)]
    return '.'.join(parts + ([st.module] if st.module else []))


# ---- N3 imports
def import_error_guarded(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and n.handlers:
            for s in n.body:
                for x in ast.walk(s):
                    out.add(id(x))
            for h in n.handlers:
                for x in ast.walk(h):
                    out.add(id(x))
    return out


def imports(ctx, prog, m):
    g = import_error_guarded(m.tree)
    for st in ast.walk(m.tree):
        if isinstance(st, ast.ImportFrom):
            src = resolve_from(m, st)
            if src is None or src.split('.')[0] != 'nephosem':
                continue
            if src not in prog.modules:
                if id(st) not in g:
                    ctx.bad('N3', '%s:import %s' % (m.name, src), '%s:%d' % (m.path, st.lineno), 'module %s does not exist' % src)
                continue
            for a in st.names:
                if a.name == '*':
                    continue
                k = '%s:from %s import %s' % (m.name, src, a.name)
                if prog.lookup(src, a.name) is not None or (src + '.' + a.name) in prog.modules:
                    ctx.ok('N3', k)
                elif id(st) not in g:
                    ctx.bad('N3', k, '%s:%d' % (m.path, st.lineno), '%s has no %s' % (src, a.name))


# ---- N2
def hierarchy_attrs(prog, c):
    """names bound on instances of c or of its subclasses, or None when not fully known"""
    subs = [k for m in prog.modules.values() for k in m.classes.values() if k.is_sub(c)]
    out = set()
    opened = False
    for k in set(subs):
        for b in k.mro():
            for n in b.methods:
                out.add(n)
            for n in b.consts:
                out.add(n)
            for x in ast.walk(b.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                    if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        out.add(x.args[1].value)
                    else:
                        opened = True
                if isinstance(x, ast.Attribute) and x.attr == '__dict__':
                    opened = True
            if '__getattr__' in b.methods and not raises_attr(b.methods['__getattr__']):
                return None, True
            for e in b.ext_bases:
                if e not in ('object', 'abc.ABC', 'ABC'):
                    lib = LIB_BASES.get(e.split('.')[-1])
                    if lib is None:
                        return None, True
                    out |= lib
    return out, opened


def reviewed_reads(ctx):
    """attribute names the reviewed instances read (attributes that arrive through keyword arguments)"""
    if not hasattr(ctx, '_rr'):
        from .common import refcmp
        rc = refcmp(ctx)
        ctx._rr = {n.attr for f in rc.ref.funcs for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
    return ctx._rr


LIB_BASES = {
    'dict': set(dir(dict)), 'list': set(dir(list)), 'Exception': set(dir(Exception)), 'set': set(dir(set)),
}


def raises_attr(f):
    return any(isinstance(n, ast.Raise) for n in ast.walk(f.node))


def getattr_handles(f):
    """string constants the class's __getattr__ compares its argument with"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.add(n.value)
    return out


OBJ = set(dir(object)) | {'__dict__', '__name__'}


def selfattrs(ctx, prog, f):
    if f.cls is None or f.is_static or f.is_classmethod or not f.params():
        return
    me = f.params()[0]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store):
            return
    key = f.cls.qual
    cache = ctx.__dict__.setdefault('_ha', {})
    if key not in cache:
        cache[key] = hierarchy_attrs(prog, f.cls)
    ha, opened = cache[key]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
            k = '%s:self.%s' % (f.qual, n.attr)
            if ha is None:
                ctx.undecided('N2', k, 'attributes of the hierarchy are open')
                continue
            extra = set()
            for b in f.cls.mro():
                if '__getattr__' in b.methods:
                    extra |= getattr_handles(b.methods['__getattr__'])
            if n.attr in ha or n.attr in OBJ or n.attr in extra or attr_guarded(f.node, n):
                ctx.ok('N2', k)
            elif opened and n.attr in reviewed_reads(ctx):
                ctx.undecided('N2', k, 'instances receive further attributes at run time')
            else:
                ctx.bad('N2', k, '%s:%d' % (f.mod.path, n.lineno), 'no class in the hierarchy binds attribute %r' % n.attr)


def attr_guarded(fn, node):
    """read inside a try that catches AttributeError, or after a hasattr test of the same name"""
    for t in ast.walk(fn):
        if isinstance(t, ast.Try):
            for h in t.handlers:
                ns = [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ['AttributeError']
                if set(ns) & {'AttributeError', 'Exception', 'BaseException'}:
                    if any(x is node for s in t.body for x in ast.walk(s)):
                        return True
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'hasattr' and len(t.args) == 2 \
                and isinstance(t.args[1], ast.Constant) and t.args[1].value == node.attr:
            return True
    return False


# ---- N3 attributes of modules and classes
def local_names(f):
    out = set(f.params()) | set(f.kwonly())
    a = f.node.args
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    o = f
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node:
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
    return out


def modattrs(ctx, prog, f):
    loc = local_names(f)
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name)):
            continue
        if n.value.id in loc:
            continue
        r = prog.lookup(f.mod.name, n.value.id)
        k = '%s:%s.%s' % (f.qual, n.value.id, n.attr)
        if hasattr(r, 'tree') and hasattr(r, 'name'):
            if prog.lookup(r.name, n.attr) is not None or (r.name + '.' + n.attr) in prog.modules or n.attr in MODULE_NAMES:
                ctx.ok('N3', k)
            elif attr_guarded(f.node, n):
                ctx.ok('N3', k)
            else:
                ctx.bad('N3', k, '%s:%d' % (f.mod.path, n.lineno), 'module %s has no %s' % (r.name, n.attr))
        elif isinstance(r, ClassInfo):
            if not r.fully_known():
                continue
            if r.find(n.attr) is not None or r.find_const(n.attr) is not None or n.attr in OBJ | {'__name__', '__mro__', '__module__'}:
                ctx.ok('N3', k)
            else:
                ctx.bad('N3', k, '%s:%d' % (f.mod.path, n.lineno), 'class %s has no %s' % (r.qual, n.attr))


# ---- N4
def binds(fi, call, skip):
    """None if the call binds, else what does not"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return False, None
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    posonly = [x.arg for x in a.posonlyargs]
    kwo = [x.arg for x in a.kwonlyargs]
    ndef = len(a.defaults)
    req = pos[:len(pos) - ndef] if ndef <= len(pos) else []
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    given = set()
    if len(call.args) > len(pos):
        if a.vararg is None:
            return True, '%d positional arguments, takes %d' % (len(call.args), len(pos))
    given |= set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return True, 'argument %r given twice' % k.arg
        if k.arg in pos and k.arg not in posonly or k.arg in kwo:
            given.add(k.arg)
        elif a.kwarg is None:
            return True, 'no parameter %r' % k.arg
    miss = [p for p in req + kwreq if p not in given]
    if miss:
        return True, 'missing argument %s' % ', '.join(miss)
    return True, None


def calls(ctx, prog, f):
    loc = local_names(f)
    me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
    cnt = {}
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        target, skip, nm = None, 0, None
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id not in loc:
            target = prog.lookup(f.mod.name, fn.id)
            nm = fn.id
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            nm = fn.value.id + '.' + fn.attr
            if fn.value.id == me and f.cls is not None:
                subs = [k for m in prog.modules.values() for k in m.classes.values() if k.is_sub(f.cls)]
                for k in subs:
                    t = k.find(fn.attr)
                    if isinstance(t, FuncInfo) and not t.is_property:
                        if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == fn.attr for x in ast.walk(k.node)):
                            continue
                        check(ctx, f, n, t, 0 if t.is_static else 1, nm, cnt)
                continue
            if fn.value.id not in loc:
                r = prog.lookup(f.mod.name, fn.value.id)
                if hasattr(r, 'tree') and hasattr(r, 'name'):
                    target = prog.lookup(r.name, fn.attr)
                elif isinstance(r, ClassInfo):
                    t = r.find(fn.attr)
                    if isinstance(t, FuncInfo):
                        target, skip = t, (1 if t.is_classmethod else 0)
        if isinstance(target, ClassInfo):
            if not target.fully_known():
                continue
            t = target.find('__init__')
            if isinstance(t, FuncInfo) and target.find('__new__') is None:
                check(ctx, f, n, t, 1, nm, cnt)
        elif isinstance(target, FuncInfo):
            if decorated(target):
                continue
            check(ctx, f, n, target, skip, nm, cnt)


def decorated(fi):
    for d in fi.node.decorator_list:
        nm = dotted(d) or ''
        if nm not in ('staticmethod', 'classmethod', 'property', 'timeit') and not nm.startswith('abc.'):
            return True
    return False


def check(ctx, f, call, t, skip, nm, cnt):
    dec, what = binds(t, call, skip)
    k = '%s:call %s -> %s' % (f.qual, nm, t.qual)
    if not dec:
        ctx.undecided('N4', k, 'starred arguments')
    elif what:
        ctx.bad('N4', k + (' (%s)' % what), '%s:%d' % (f.mod.path, call.lineno), 'call of %s does not bind: %s' % (t.qual, what))
    else:
        ctx.ok('N4', k)


# ---- N6
def anyattrs(ctx, prog, mods):
    bound = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bound.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bound.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                bound.add(n.id)
            elif isinstance(n, ast.keyword) and n.arg:
                bound.add(n.arg)
    for t in (str, bytes, int, float, complex, list, tuple, dict, set, frozenset, type, object, Exception, OSError, property, slice,
              type(lambda: 0), type(ast), type((lambda: (yield))()), type(re.compile('')), type(re.match('', ''))):
        bound |= set(dir(t))
    bound |= reviewed_reads(ctx)
    unknown = {}
    total = set()
    for f in prog.funcs:
        if f.mod.name not in mods:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                total.add(n.attr)
                if n.attr not in bound and not attr_guarded(f.node, n):
                    unknown.setdefault(n.attr, []).append((f, n.lineno))
    for a in sorted(total - set(unknown)):
        ctx.ok('N6', a)
    if not unknown:
        return
    dirs = sorted(glob.glob('/opt/venv/lib/python3*/site-packages/*')) + [os.path.dirname(os.__file__)]
    dirs = [d for d in dirs if os.path.isdir(d) and not d.endswith('.dist-info')]
    left = set(unknown)
    pats = {a: re.compile(r'\b%s\b' % re.escape(a)) for a in left}
    if not any('numpy' in d for d in dirs):
        for a in sorted(left):
            ctx.undecided('N6', a, 'the libraries are not installed')
        return
    for d in dirs:
        for base, sub, files in os.walk(d):
            if 'tests' in sub:
                sub.remove('tests')
            if not left:
                break
            for fn in files:
                if fn.endswith(('.py', '.pyi', '.pyx', '.so')):
                    try:
                        txt = open(os.path.join(base, fn), encoding='latin-1').read()
                    except OSError:
                        continue
                    for a in [x for x in left if x in txt and pats[x].search(txt)]:
                        left.discard(a)
    for a in sorted(unknown):
        f, line = unknown[a][0]
        if a in left:
            ctx.bad('N6', a, '%s:%d' % (f.mod.path, line), 'attribute %r (read in %s) occurs in no class of the package or of any '
                    'installed library' % (a, f.qual))
        else:
            ctx.ok('N6', a, 'bound by a library')


# ---- N5
def library(ctx, prog, mods):
    exe = shutil.which('pyright')
    py = '/opt/venv/bin/python'
    if exe is None or not os.path.exists(py):
        ctx.undecided('N5', 'pyright', 'not installed')
        return
    import tempfile
    d = tempfile.mkdtemp(prefix='c13_')
    try:
        with open(os.path.join(d, 'pyrightconfig.json'), 'w') as f:
            rel = os.path.relpath(os.path.realpath(prog.root), os.path.realpath(d))
            json.dump({'include': [rel + '/nephosem'], 'exclude': [rel + '/nephosem/deprel', rel + '/nephosem/tests'],
                       'extraPaths': [prog.root], 'typeCheckingMode': 'basic'}, f)
        env = dict(os.environ, HOME=d, PYRIGHT_PYTHON_IGNORE_WARNINGS='1', NO_UPDATE_NOTIFIER='1')
        try:
            r = subprocess.run([exe, '--pythonpath', py, '--outputjson', '-p', d], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, cwd=d, env=env, timeout=400)
            out = json.loads(r.stdout)
        except Exception as e:
            ctx.undecided('N5', 'pyright', 'no answer: %s' % e)
            return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if out.get('summary', {}).get('filesAnalyzed', 0) < 12:
        ctx.undecided('N5', 'pyright', 'analysed only %s files' % out.get('summary', {}).get('filesAnalyzed'))
        return
    for m in mods.values():
        ctx.ok('N5', m.name, 'module attributes resolved against the installed libraries')
    for x in out.get('generalDiagnostics', ()):
        msg = x['message'].replace('\n', ' ')
        if 'is not a known attribute of module' in msg:
            rel = os.path.relpath(x['file'], prog.root)
            ctx.bad('N5', '%s:%s' % (rel, msg), '%s:%d' % (rel, x['range']['start']['line'] + 1), msg)


# ---- the rules must be able to fire
def selftest(ctx):
    src = "def f(a):\n    return a + missing_name\n"
    top = symtable.symtable(src, 'x', 'exec')
    s = top.get_children()[0].lookup('missing_name')
    if not (s.is_global() and s.is_referenced()):
        raise AnalysisBroken('scope rule does not see an unbound name')
    fn = ast.parse("def g(a, b, c=1):\n    pass\n").body[0]

    class F:
        node = fn
    for s, want in (('g(1, 2)', None), ('g(1)', 'missing argument b'), ('g(1, 2, d=3)', "no parameter 'd'")):
        got = binds(F, ast.parse(s).body[0].value, 0)[1]
        if got != want:
            raise AnalysisBroken('call rule: %s gives %r' % (s, got))
