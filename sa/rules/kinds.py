"""Kind rule: a decided difference belongs to every property whose subject it touches, wherever it is.

attribution.py says which functions a property rests on.  A difference in any other function still
concerns the property when what differs is of the property's kind: a copy that is no longer made (C07), an
order that is no longer fixed (C11), a text encoding (C17), a settings key or a default (C09), a call that
removes files (C10), an explicit rejection (C14), an option that no longer reaches an effect (C18)."""
from collections import Counter

NAMES = {
    'C07': {'copy', 'deepcopy'},
    'C10': {'remove', 'unlink', 'rmtree', 'rmdir', 'removedirs', 'mkdtemp', 'mktemp', 'rename', 'getpid'},
    'C11': {'sorted', 'sort', 'set', 'frozenset', 'listdir', 'glob', 'walk', 'hash', 'id', 'shuffle', 'scandir',
            'imap_unordered', 'as_completed', 'OrderedDict'},
}
IGNORED = {'verbose', 'prog_bar', 'self', 'cls', 'indent'}


def strings(t, out=None, depth=0):
    """all strings of a term with their number (shared sub-terms are visited once)"""
    out = Counter() if out is None else out
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, str):
            out[x] += 1
        elif isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            todo.extend(x)
    return out


def names(t):
    out = Counter()
    for s, n in strings(t).items():
        out[s.rsplit('.', 1)[-1].strip("'")] += n
    return out


def syms(t, wanted):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if len(x) == 2 and x[0] == 'sym' and x[1] in wanted:
                out.add(x[1])
            todo.extend(x)
    return out


def params_of(f):
    ps = {p for p in f.params() + f.kwonly() if p not in IGNORED}
    if f.cls is not None and not f.is_static and f.params():
        ps.discard(f.params()[0])
    return ps


def missing(t):
    return isinstance(t, tuple) and t[:1] == ('missing',)


def of(rc, q, r):
    """the properties a decided difference r of function q concerns by its kind"""
    what = str(r[3])
    f = rc.rf[q]
    out = set()
    if 'default of parameter' in what:
        out |= {'C09', 'C18'}
    if 'explicit rejection' in what:
        out.add('C14')
    if 'swallows every error' in what:
        out |= {'C14', 'C02'} if f.mod.name.endswith(('handler', 'typetoken', 'models.deprel')) else {'C14'}
    if 'is read before anything' in what:
        out.add('C13')
    if any(pr[:1] == ((('state', 'of one call')),) for pr in r[1] if isinstance(pr, tuple)):
        out |= {'C07', 'C11'}
    if 'encoding' in what:
        out.add('C17')
    for pr in r[1]:
        if not (isinstance(pr, tuple) and len(pr) == 2):
            continue
        a, b = pr
        ps = params_of(f)
        if ps and not missing(a) and not missing(b) and syms(a, ps) != syms(b, ps):
            out.add('C18')
        if missing(a) or missing(b):
            t = b if missing(a) else a
            top = t[1] if len(t) > 1 and isinstance(t[1], tuple) else t
            na, nb = names(top[1]) if len(top) > 1 and isinstance(top[1], tuple) else names(top), Counter()
        else:
            na, nb = names(a), names(b)
        d = set((na - nb)) | set((nb - na))
        for p, ns in NAMES.items():
            if d & ns:
                out.add(p)
        if any('encoding' in x for x in d) and not missing(a) and not missing(b):
            out.add('C17')
        if any(x in ('settings', 'conf', 'config', 'parser') for x in d) or 'settings' in names(a) and d and not (missing(a) or missing(b)) and \
                len(na) < 25 and any('-' in x for x in d):
            out.add('C09')
        if missing(b) and isinstance(a, tuple) and a and a[0] in ('raise', 'assert') or missing(a) and isinstance(b, tuple) and b and b[0] in (
                'raise', 'assert'):
            out.add('C14')
    return out
