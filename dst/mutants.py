"""Mutants of the code under test, to measure how sensitive the checks are.

DST_MUTANT=<relative path>:<n> applies the n-th mutation of that file while it
is loaded.  Used by tools/campaign.py only; no registered check sets it.
"""

import ast
import copy
import os

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
    ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
    ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
    ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult,
    ast.Pow: ast.Mult}
QUIET = ('plot', 'animate', '__repr__', 'render')


def _skip(tree):
    """Nodes of code that raises, asserts, documents or plots."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
                ) or (isinstance(n, ast.FunctionDef)
                and any(q in n.name for q in QUIET)):
            out.update(id(x) for x in ast.walk(n))
    return out


def sites(tree):
    """[(line, description, function applying it)] in a stable order."""
    skip = _skip(tree)
    out = []

    def add(n, what, f):
        out.append((getattr(n, 'lineno', 0), what, f))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in CMP:
                    def f(n=n, i=i, o=o):
                        n.ops[i] = CMP[type(o)]()
                    add(n, 'compare %s -> %s' % (type(o).__name__,
                        CMP[type(o)].__name__), f)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod) and (isinstance(n.left,
                (ast.Constant, ast.JoinedStr)))):
            def f(n=n):
                n.op = BIN[type(n.op)]()
            add(n, 'op %s' % type(n.op).__name__, f)
            if isinstance(n.op, (ast.Sub, ast.Div)):
                def f(n=n):
                    n.left, n.right = n.right, n.left
                add(n, 'swap operands', f)
        elif isinstance(n, ast.BoolOp):
            def f(n=n):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(n, 'and/or', f)
            if len(n.values) >= 2:
                def f(n=n):
                    n.values = n.values[:-1]
                add(n, 'drop last condition', f)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not,
                ast.USub)):
            def f(n=n):
                n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.Not()
                if isinstance(n.op, ast.Not):
                    n.operand = ast.UnaryOp(ast.Not(), n.operand)
            add(n, 'drop ' + type(n.op).__name__, f)
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                def f(n=n):
                    n.value = not n.value
                add(n, 'flip bool', f)
            elif isinstance(n.value, (int, float)):
                def f(n=n):
                    n.value = n.value + 1
                add(n, '%r + 1' % n.value, f)
        elif isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                def f(n=n, v=v):
                    n.test = ast.Constant(v)
                add(n, 'if %s' % v, f)
        elif isinstance(n, ast.Call):
            if n.keywords:
                for i, k in enumerate(n.keywords):
                    def f(n=n, i=i):
                        del n.keywords[i]
                    add(n, 'drop argument %s' % k.arg, f)
            if len(n.args) >= 2:
                def f(n=n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                add(n, 'swap arguments', f)
                def f(n=n):
                    n.args = n.args[:-1]
                add(n, 'drop last argument', f)
            if len(n.args) == 1 and isinstance(n.func, ast.Name) \
                    and n.func.id in ('sorted', 'list', 'set', 'reversed',
                    'float', 'int', 'abs', 'dict'):
                def f(n=n):
                    n.func = ast.Lambda(ast.arguments([], [ast.arg('x')],
                        None, [], [], None, []), ast.Name('x', ast.Load()))
                add(n, 'drop %s()' % n.func.id, f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'deepcopy') and (n.args or not n.args):
                def f(n=n):
                    inner = n.args[0] if n.args else n.func.value
                    n.func = ast.Lambda(ast.arguments([], [ast.arg('x')],
                        None, [], [], None, []), ast.Name('x', ast.Load()))
                    n.args, n.keywords = [inner], []
                add(n, 'drop copy', f)
        elif isinstance(n, ast.For):
            def f(n=n):
                n.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()),
                    [n.iter], []), ast.Slice(ast.Constant(1), None, None),
                    ast.Load())
            add(n, 'loop skips first', f)
            def f(n=n):
                n.iter = ast.Subscript(ast.Call(ast.Name('list', ast.Load()),
                    [n.iter], []), ast.Slice(None, None, ast.Constant(-1)),
                    ast.Load())
            add(n, 'loop reversed', f)
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If, ast.While,
                ast.Try, ast.With)):
            for field in ('body', 'orelse', 'finalbody'):
                block = getattr(n, field, None) or []
                for i, s in enumerate(block):
                    if id(s) in skip:
                        continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr,
                            ast.Delete, ast.Break, ast.Continue)):
                        def f(block=block, i=i):
                            block[i] = ast.copy_location(ast.Pass(), block[i])
                        add(s, 'delete %s' % type(s).__name__, f)
                if len(block) >= 2:
                    for i in range(len(block) - 1):
                        a, b = block[i], block[i + 1]
                        if all(isinstance(x, (ast.Assign, ast.AugAssign,
                                ast.Expr)) and id(x) not in skip
                                for x in (a, b)):
                            def f(block=block, i=i):
                                block[i], block[i + 1] = \
                                    block[i + 1], block[i]
                            add(a, 'swap statements', f)
        if isinstance(n, ast.comprehension) and n.ifs:
            def f(n=n):
                n.ifs = n.ifs[:-1]
            add(n.iter, 'drop filter', f)
    return out


def apply(tree, path, spec):
    rel, _, k = spec.rpartition(':')
    if not path.endswith(rel):
        return tree
    all_ = sites(tree)
    all_[int(k)][2]()
    ast.fix_missing_locations(tree)
    return tree
