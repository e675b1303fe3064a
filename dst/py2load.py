"""Load probcomp/cgpm (Python 2.7 source) from a source tree with Python 2 semantics.

No Python 2 interpreter exists in this sandbox, so the shipped source is
translated *at load time*, from the current working tree, into Python 3 code
that keeps Python 2 meaning:

  * syntax: print statements, `raise E, v`, tuple parameters, backquotes, `<>`,
    octal literals (lib2to3 fixers, which keep line numbers);
  * builtins: map/zip/filter/range return lists, round, unicode, long, cmp,
    reduce, xrange, sorted(cmp=), input..., through a per-module
    `__builtins__` table -- no source change is needed for these;
  * dict.keys/values/items return lists, iter* methods exist (AST rewrite of
    the zero-argument method calls);
  * `/` is classic division unless the module says
    `from __future__ import division` (AST rewrite);
  * list.sort(cmp), `sys.maxint`, cPickle, StringIO, implicit relative imports.

Files that already are valid Python 3 *and* valid Python 2 come out with the
same meaning.  Nothing is written anywhere unless CGPM_PY2_CACHE names a
directory for the translated text (keyed by the hash of the source).
"""

import ast
import builtins as _b
import collections.abc as _abc
import functools
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import io
import operator
import os
import pickle as _pickle
import sys
import types
import warnings

import numpy as np

from . import simclock

REPO = os.environ.get('CGPM_REPO', '/repo')
PKG = 'cgpm'

_FIXERS = [
    'print', 'except', 'raise', 'tuple_params', 'exec', 'ne', 'repr',
    'numliterals', 'has_key', 'funcattrs', 'methodattrs', 'next', 'nonzero',
    'metaclass', 'apply', 'throw', 'sys_exc', 'paren', 'standarderror',
    'types', 'raw_input', 'execfile', 'itertools',
]

_tool = None


def _refactor(src, name):
    global _tool
    if _tool is None:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from lib2to3 import refactor
        class Tool(refactor.RefactoringTool):
            def log_error(self, msg, *a, **k):
                raise SyntaxError(msg)
            def log_message(self, *a, **k):
                pass
            def log_debug(self, *a, **k):
                pass
        _tool = Tool(['lib2to3.fixes.fix_' + f for f in _FIXERS], {}, [])
    return str(_tool.refactor_string(src, name))


# --------------------------------------------------------------------------
# Runtime helpers

def _integral(x):
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return True
    return isinstance(x, np.ndarray) and x.dtype.kind in 'iub'


def div(a, b):
    if _integral(a) and _integral(b):
        return a // b
    return a / b


def idiv(a, b):
    if _integral(a) and _integral(b):
        a //= b
    else:
        a /= b
    return a


_VIEWS = (_abc.KeysView, _abc.ValuesView, _abc.ItemsView, _b.map, _b.zip,
    _b.filter)


def _listed(name):
    def f(obj):
        r = getattr(obj, name)()
        if isinstance(r, _VIEWS):
            return list(r)
        return r
    f.__name__ = 'py2_' + name
    return f


def _itered(name):
    long_name = 'iter' + name
    def f(obj):
        if hasattr(obj, long_name):
            return getattr(obj, long_name)()
        return iter(getattr(obj, name)())
    f.__name__ = 'py2_iter' + name
    return f


def func(f):
    return getattr(f, '__func__', f)


def _rank(x):
    if x is None:
        return (0, '')
    if isinstance(x, (int, float, np.number, bool)):
        return (1, '')
    return (2, type(x).__name__)


def _order(op):
    def f(a, b):
        try:
            return op(a, b)
        except TypeError:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                raise
            ra, rb = _rank(a), _rank(b)
            if ra == rb:
                if isinstance(a, complex) or isinstance(b, complex):
                    raise
                if a is None:
                    return op(0, 0)
                if isinstance(a, (tuple, list)) and type(a) == type(b):
                    for x, y in _b.zip(a, b):
                        if not x == y:
                            return f(x, y)
                    return op(len(a), len(b))
                return op(id(a), id(b))
            return op(ra, rb)
    return f


class _Key(object):
    __slots__ = ('v',)
    def __init__(self, v):
        self.v = v
    def __lt__(self, other):
        return _LT(self.v, other.v)


_LT = _order(operator.lt)
ORDER = {'__py2_lt__': _LT, '__py2_le__': _order(operator.le),
    '__py2_gt__': _order(operator.gt), '__py2_ge__': _order(operator.ge)}

HELPERS = dict(ORDER)
HELPERS.update({'__py2_div__': div, '__py2_idiv__': idiv, '__py2_func__': func})
for _n in ('keys', 'values', 'items'):
    HELPERS['__py2_%s__' % _n] = _listed(_n)
    HELPERS['__py2_iter%s__' % _n] = _itered(_n)
    HELPERS['__py2_view%s__' % _n] = (lambda n: lambda o: getattr(o, n)())(_n)

_METHODS = {}
for _n in ('keys', 'values', 'items'):
    for _p in ('', 'iter', 'view'):
        _METHODS[_p + _n] = '__py2_%s%s__' % (_p, _n)


def _encode(s, encoding, errors='strict'):
    """Encoded text is text, as in Python 2."""
    if not isinstance(s, str):
        return s.encode(encoding, errors)
    return s.encode(encoding, errors).decode('latin1')


def _translate(s, table, *deleted):
    if isinstance(s, str) and deleted and table is None:
        return ''.join(c for c in s if c not in deleted[0])
    return s.translate(table, *deleted)


HELPERS.update({'__py2_encode__': _encode, '__py2_translate__': _translate})
_STR_METHODS = {'encode': '__py2_encode__', 'translate': '__py2_translate__'}


class _Rewrite(ast.NodeTransformer):

    def __init__(self, classic_division):
        self.classic = classic_division
        self.tmp = 0

    def _call(self, node, name, args):
        new = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args,
            keywords=[])
        ast.copy_location(new, node)
        ast.copy_location(new.func, node)
        return new

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in _METHODS \
                and not node.args and not node.keywords:
            return self._call(node, _METHODS[f.attr], [f.value])
        if isinstance(f, ast.Attribute) and f.attr in _STR_METHODS \
                and node.args and not node.keywords:
            return self._call(node, _STR_METHODS[f.attr],
                [f.value] + node.args)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in ('__func__', 'im_func') \
                and isinstance(node.ctx, ast.Load):
            return self._call(node, '__py2_func__', [node.value])
        return node

    _OPS = {ast.Lt: '__py2_lt__', ast.LtE: '__py2_le__',
        ast.Gt: '__py2_gt__', ast.GtE: '__py2_ge__'}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(type(o) in self._OPS for o in node.ops):
            return node
        parts = []
        left = node.left
        for i, (op, right) in enumerate(_b.zip(node.ops, node.comparators)):
            nxt = right
            if i + 1 < len(node.ops) and not isinstance(
                    right, (ast.Name, ast.Constant)):
                self.tmp += 1
                name = '__py2_t%d' % (self.tmp,)
                right = ast.NamedExpr(
                    target=ast.Name(id=name, ctx=ast.Store()), value=right)
                nxt = ast.Name(id=name, ctx=ast.Load())
            if type(op) in self._OPS:
                parts.append(
                    self._call(node, self._OPS[type(op)], [left, right]))
            else:
                parts.append(ast.copy_location(
                    ast.Compare(left=left, ops=[op], comparators=[right]),
                    node))
            left = nxt
        if len(parts) == 1:
            return parts[0]
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.classic and isinstance(node.op, ast.Div):
            return self._call(node, '__py2_div__', [node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.classic and isinstance(node.op, ast.Div) \
                and isinstance(node.target, ast.Name):
            load = ast.copy_location(
                ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._call(node, '__py2_idiv__', [load, node.value])),
                node)
        return node


def _has_future_division(tree):
    return any(
        isinstance(n, ast.ImportFrom) and n.module == '__future__'
        and any(a.name == 'division' for a in n.names)
        for n in tree.body)


def translate(src, path):
    if not src.endswith('\n'):
        src += '\n'
    text = None
    cache = os.environ.get('CGPM_PY2_CACHE')
    key = hashlib.sha256(src.encode('utf-8')).hexdigest()
    if cache:
        cpath = os.path.join(cache, key + '.py')
        try:
            with io.open(cpath, encoding='utf-8') as f:
                text = f.read()
        except (IOError, OSError):
            text = None
    if text is None:
        text = _refactor(src, path)
        if cache:
            try:
                tmp = '%s.%d.tmp' % (cpath, os.getpid())
                with io.open(tmp, 'w', encoding='utf-8') as f:
                    f.write(text)
                os.rename(tmp, cpath)
            except (IOError, OSError):
                pass
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(text, path)
        if os.environ.get('DST_MUTANT'):
            from . import mutants
            tree = mutants.apply(tree, path, os.environ['DST_MUTANT'])
        tree = _Rewrite(not _has_future_division(tree)).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)


# --------------------------------------------------------------------------
# Python 2 builtins

def _map(f, *seqs):
    if f is None:
        f = lambda *a: a if len(a) > 1 else a[0]
    if len(seqs) == 1:
        return [f(x) for x in seqs[0]]
    seqs = [list(s) for s in seqs]
    n = max(len(s) for s in seqs)
    seqs = [s + [None] * (n - len(s)) for s in seqs]
    return [f(*a) for a in _b.zip(*seqs)]


def _filter(f, seq):
    r = [x for x in seq if (f(x) if f is not None else x)]
    if isinstance(seq, tuple):
        return tuple(r)
    if isinstance(seq, str):
        return ''.join(r)
    return r


def _py2_round(x, n=0):
    from decimal import Decimal, ROUND_HALF_UP
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        return x
    return float(Decimal(repr(x)).quantize(
        Decimal(1).scaleb(-n), rounding=ROUND_HALF_UP))


def _cmp(a, b):
    return (a > b) - (a < b)


def _sorted(seq, cmp=None, key=None, reverse=False):
    if cmp is not None:
        ck = functools.cmp_to_key(cmp)
        return _b.sorted(seq, key=(lambda x: ck(key(x))) if key else ck,
            reverse=reverse)
    seq = list(seq)
    try:
        return _b.sorted(seq, key=key, reverse=reverse)
    except TypeError:
        return _b.sorted(seq, reverse=reverse,
            key=(lambda x: _Key(key(x))) if key else _Key)


class _PickleShim(types.ModuleType):
    """cPickle with text-mode file objects tolerated, as Python 2 does."""

    def __init__(self):
        types.ModuleType.__init__(self, 'cPickle')
        for k in dir(_pickle):
            if not k.startswith('__'):
                setattr(self, k, getattr(_pickle, k))
        self.HIGHEST_PROTOCOL = 2

    @staticmethod
    def _bin(f):
        if isinstance(f, io.TextIOBase) or hasattr(f, 'encoding'):
            return f.buffer  # Python 2 text-mode files carry bytes.
        return f

    def dump(self, obj, f, protocol=0):
        return _pickle.dump(obj, self._bin(f), 2 if protocol < 0 else protocol)

    def dumps(self, obj, protocol=0):
        return _pickle.dumps(obj, 2 if protocol < 0 else protocol)

    def load(self, f):
        return _pickle.load(self._bin(f), encoding='latin1')

    def loads(self, s):
        if isinstance(s, str):
            s = s.encode('latin1')
        return _pickle.loads(s, encoding='latin1')


cPickle = _PickleShim()


class _B64Shim(types.ModuleType):
    def __init__(self):
        import base64
        types.ModuleType.__init__(self, 'base64')
        for k in dir(base64):
            if not k.startswith('__'):
                setattr(self, k, getattr(base64, k))
        def enc(s):
            if isinstance(s, str):
                s = s.encode('latin1')
            return base64.b64encode(s).decode('ascii')
        self.b64encode = enc


class _CsvShim(types.ModuleType):
    """csv whose writer accepts the binary files of Python 2."""

    def __init__(self):
        types.ModuleType.__init__(self, 'csv')

    def __getattr__(self, name):
        import csv
        return getattr(csv, name)

    def writer(self, f, *a, **k):
        import csv
        if 'b' in getattr(f, 'mode', ''):
            class Text(object):
                def write(self, s):
                    return f.write(s.encode('utf-8'))
            return csv.writer(Text(), *a, **k)
        return csv.writer(f, *a, **k)


_MODULE_SHIMS = {
    'csv': _CsvShim(),
    'cPickle': cPickle,
    'pickle': cPickle,
    'StringIO': io,
    '__builtin__': None,  # filled below
    'base64': _B64Shim(),
    'time': simclock.time,
    'datetime': simclock.datetime,
}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in _MODULE_SHIMS:
            return _MODULE_SHIMS[name]
        # Implicit relative import, as Python 2 without absolute_import does.
        pkg = (globals or {}).get('__package__')
        if pkg and not name.startswith(PKG + '.') and name != PKG:
            head = name.split('.')[0]
            base = os.path.join(REPO, 'src', *pkg.split('.')[1:])
            if os.path.isfile(os.path.join(base, head + '.py')) or \
                    os.path.isfile(os.path.join(base, head, '__init__.py')):
                full = pkg + '.' + name
                mod = importlib.import_module(full)
                if fromlist:
                    return mod
                return importlib.import_module(pkg + '.' + head)
    return _b.__import__(name, globals, locals, fromlist, level)


_B2 = dict(vars(_b))
_B2.update({
    'map': _map, 'filter': _filter,
    'zip': lambda *a: list(_b.zip(*a)),
    'range': lambda *a: list(_b.range(*a)),
    'xrange': _b.range,
    'reduce': functools.reduce,
    'unicode': str, 'basestring': str, 'long': int, 'unichr': chr,
    'raw_input': _b.input, 'cmp': _cmp, 'sorted': _sorted,
    'round': _py2_round, 'intern': sys.intern,
    'apply': lambda f, a=(), k={}: f(*a, **k),
    'coerce': lambda a, b: (a, b),
    'StandardError': Exception,
    '__import__': _import,
})
_B2.update(HELPERS)
_bm = types.ModuleType('__builtin__')
for _k, _v in list(_B2.items()):
    setattr(_bm, _k, _v)
_MODULE_SHIMS['__builtin__'] = _bm

if not hasattr(sys, 'maxint'):
    sys.maxint = sys.maxsize


# --------------------------------------------------------------------------
# Import hook

class _Loader(importlib.abc.Loader):

    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with io.open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = translate(src, self.path)
        module.__file__ = self.path
        module.__dict__['__builtins__'] = _B2
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        parts = fullname.split('.')[1:]
        base = os.path.join(REPO, 'src', *parts)
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(
                fullname, _Loader(p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        p = base + '.py'
        if os.path.isfile(p):
            return importlib.machinery.ModuleSpec(
                fullname, _Loader(p, False), origin=p)
        if fullname == PKG + '.version':
            return importlib.machinery.ModuleSpec(
                fullname, _VersionLoader(), origin='<version>')
        return None


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        module.__version__ = '0.0.0'


def _numpy_compat():
    for name, val in (('float', float), ('int', int), ('bool', bool),
            ('object', object), ('str', str), ('Inf', np.inf)):
        if name not in np.__dict__:
            setattr(np, name, val)
    import scipy.misc
    import scipy.special
    if 'logsumexp' not in vars(scipy.misc):
        scipy.misc.logsumexp = scipy.special.logsumexp


_installed = False


def install(repo=None):
    global _installed, REPO
    if repo is not None:
        REPO = repo
    if _installed:
        return
    _numpy_compat()
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]
    sys.meta_path.insert(0, Finder())
    _installed = True
