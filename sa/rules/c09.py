"""C09: settings of the user take precedence over documented defaults.

S1: the defaults file nephosem/config.ini, a source file of its own, defines the reviewed options with the
reviewed values and (section [Span]) types.  S2: every settings key the live code reads or sets is one that the
reviewed code or the defaults file knows; a key that nothing defines can never be set by a user.  S3: each documented
key that the reviewed code reads is still named by the live code (no setting lost its influence).  Rule R: the loader,
its merge and the constructors that read settings are equivalent to their reviewed instances."""
import ast
import configparser
import os

from ..model import AnalysisBroken, dotted
from .common import refcmp, reference

FLOOR = 90
# options without a default that the documentation describes
OPTIONAL = {'corpus-path', 'output-path', 'tmp-path', 'global-columns', 'node-attr', 'edge-attr', 'currID', 'headID'}


def defaults_file(root):
    d = os.path.join(root, 'nephosem')
    names = sorted(x for x in os.listdir(d) if x.endswith(('.ini', '.cfg')))
    return os.path.join(d, 'config.ini' if 'config.ini' in names else names[0]) if names else None


def flat(path, numbers):
    """the settings the loader makes of the defaults file: later sections win, [Span] is made of numbers"""
    c = configparser.ConfigParser()
    c.optionxform = str
    try:
        c.read(path, encoding='utf-8')
        out = {}
        for s in c.sections():
            for o in c.options(s):
                v = c.get(s, o)
                if s in numbers:
                    try:
                        v = int(v)
                    except ValueError:
                        v = ('not a number', v)
                out[o] = v
        return out
    except configparser.Error as e:
        return {'': 'cannot be parsed: %s' % e}


def live(name):
    return not (name == 'nephosem.deprel' or name.startswith(('nephosem.deprel.', 'nephosem.tests')))


def is_settings(e):
    d = dotted(e) or ''
    return d.rsplit('.', 1)[-1].lstrip('_') in ('settings', 'sett', 'setting')


def keys(m):
    """settings keys with their sites: settings[k], settings.get/pop/setdefault(k), k in settings"""
    for n in ast.walk(m.tree):
        e = None
        if isinstance(n, ast.Subscript) and is_settings(n.value):
            e = n.slice
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop', 'setdefault') and \
                is_settings(n.func.value) and n.args:
            e = n.args[0]
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and is_settings(n.comparators[0]):
            e = n.left
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            yield e.value, n.lineno


def docstrings(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            yield n.value


def run(ctx):
    ctx.rule('S1', 'the defaults file gives each option its reviewed value and type')
    ctx.rule('S2', 'each settings key in the code is defined by the defaults or known to the reviewed code')
    ctx.rule('S3', 'each settings key of the reviewed code is still named')
    rc = refcmp(ctx)
    path = defaults_file(ctx.prog.root)
    conf = ctx.prog.modules.get('nephosem.conf')
    consts = {x.value for x in ast.walk(conf.tree) if isinstance(x, ast.Constant)} if conf else set()
    ref = flat(defaults_file(rc.ref.root), {'Span'})
    cur = flat(path, {'Span'} & consts) if path else {}
    used = {}
    for m in rc.ref.modules.values():
        if live(m.name):
            for k, line in keys(m):
                used.setdefault(k, m.name)
    for k in sorted(ref):
        c = 'config.ini:' + k
        if not path:
            ctx.undecided('S1', c, 'the defaults are not in a settings file any more')
        elif 'Span' not in consts and str(cur.get(k)) == str(ref[k]):
            ctx.undecided('S1', c, 'how the loader finds numbers is not decided')
        elif k not in cur:
            ctx.bad('S1', c, 'nephosem/config.ini', 'the default of %s is missing%s' % (k, ' (%s)' % cur[''] if '' in cur else ''))
        elif cur[k] != ref[k]:
            ctx.bad('S1', c, 'nephosem/config.ini', 'the default of %s is %r, documented %r' % (k, cur[k], ref[k]))
        else:
            ctx.ok('S1', c)
    for k in sorted(set(cur) - set(ref) - {''}):
        if k in used:
            ctx.bad('S1', 'config.ini:' + k, 'nephosem/config.ini',
                    '%s has a default now, so the code that handles its absence is never reached' % k)
        else:
            ctx.ok('S1', 'config.ini:' + k, 'a new option')
    n = 0
    for m in ctx.prog.modules.values():
        if not live(m.name):
            continue
        for k, line in keys(m):
            n += 1
            if k in used or k in ref or k in cur:
                ctx.ok('S2', '%s:%s' % (m.name, k))
            else:
                ctx.bad('S2', '%s:%s' % (m.name, k), '%s:%d' % (m._rel, line), 'the settings key %r is defined nowhere' % k)
    if n < 40:
        raise AnalysisBroken('only %d uses of settings keys were found' % n)
    named = set()
    for m in ctx.prog.modules.values():
        if live(m.name):
            doc = {id(x) for x in docstrings(m.tree)}
            named |= {x.value for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str) and id(x) not in doc}
    # an option may be composed ('get-' + form); keys of left-over classes may go with them
    for k in sorted(k for k in used if k in ref or k in OPTIONAL):
        if k in named:
            ctx.ok('S3', k)
        elif any(k.startswith(x) or k.endswith(x) for x in named if len(x) > 2 and '-' in x):
            ctx.undecided('S3', k, 'possibly a composed key')
        else:
            ctx.bad('S3', k, used[k], 'no code reads the setting %r any more' % k)
    reference(ctx, floor=15)
