"""How much of a function an edit rewrites, in tokens.

A difference the comparison sees in a function of which a few tokens changed is the meaning of that change.
When much of the function was rewritten, a difference may as well be another way to write the same thing that
the normal form does not know; such a function is undecided unless a rule that does not depend on the rest of
the function decides it (see hard.py, defaults of parameters)."""
import ast
import copy
import difflib
import io
import tokenize

SMALL, MEDIUM, LARGE = 6, 16, 60
SILENT = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical'}
SKIP = {tokenize.COMMENT, tokenize.NL, tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT, tokenize.ENDMARKER}


class _Strip(ast.NodeTransformer):
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return None
        if isinstance(n.value, ast.Call):
            f = n.value.func
            if isinstance(f, ast.Name) and f.id == 'print' or isinstance(f, ast.Attribute) and f.attr in SILENT:
                return None
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = n.body or [ast.Pass()]
        n.returns = None
        n.name = 'f'
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body',):
            if isinstance(getattr(n, k, None), list) and not getattr(n, k) and not isinstance(n, ast.Module):
                setattr(n, k, [ast.Pass()])
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_Pass(self, n):
        return n


def tokens(node):
    t = ast.fix_missing_locations(_Strip().visit(copy.deepcopy(node)))
    src = ast.unparse(t)
    return [x.string for x in tokenize.generate_tokens(io.StringIO(src).readline) if x.type not in SKIP]


def extent(a, b):
    x, y = tokens(a), tokens(b)
    i = 0
    while i < len(x) and i < len(y) and x[i] == y[i]:
        i += 1
    j = 0
    while j < len(x) - i and j < len(y) - i and x[len(x) - 1 - j] == y[len(y) - 1 - j]:
        j += 1
    x, y = x[i:len(x) - j], y[i:len(y) - j]
    dele = ins = 0
    for op, a1, a2, b1, b2 in difflib.SequenceMatcher(None, x, y, autojunk=False).get_opcodes():
        if op != 'equal':
            dele += a2 - a1
            ins += b2 - b1
    return dele, ins


def rewritten(a, b):
    """(deleted, inserted) tokens if the edit replaces code rather than changing or adding something, else None"""
    d, i = extent(a, b)
    if min(d, i) >= SMALL and max(d, i) >= MEDIUM or max(d, i) > LARGE:
        return d, i
    return None
