"""Load /repo/src (Python 2.7 source) as the package ``cgpm`` under Python 3.12.

The working tree is read at import time, never copied or modified.  A module is
compiled in memory in two steps:

1. syntax   -- if Python 3 cannot parse the file, lib2to3's *syntax-only* fixers
               (print, except, raise, tuple parameters, backticks, exec, ne,
               octal literals) rewrite the token stream;
2. semantics -- an AST pass restores the Python 2 meaning of the constructs that
               parse in both languages but mean something else in Python 3:
               ``/`` on integers, list-returning ``keys/values/items/map/
               filter/zip/range``, ``iteritems``.., ``func_code``, implicit
               relative imports, ``cPickle``, ``base64`` on str.

Nothing in a check decides on the *text* of the source: a semantically equal
edit of any module loads to a semantically equal module.
"""

import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import sys
import types
import warnings

REPO = os.environ.get('CGPM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

warnings.filterwarnings('ignore')


# ---------------------------------------------------------------- step 1
_TOOLS = {}


def _lib2to3_fix(text, name):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from lib2to3 import refactor
    fixers = ['lib2to3.fixes.fix_' + f for f in (
        'print', 'except', 'raise', 'tuple_params', 'repr', 'exec', 'ne',
        'numliterals', 'throw', 'methodattrs')]
    errors = []
    for opts in ({}, {'print_function': True}):
        key = bool(opts)
        if key not in _TOOLS:
            fx = [f for f in fixers if not (key and f.endswith('fix_print'))]
            _TOOLS[key] = refactor.RefactoringTool(fx, options=opts)
        try:
            return str(_TOOLS[key].refactor_string(text + '\n', name))
        except Exception as e:      # pylint: disable=broad-except
            errors.append(e)
    raise SyntaxError('%s: %s' % (name, errors))


def parse(text, name):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return ast.parse(text, name)
        except SyntaxError:
            return ast.parse(_lib2to3_fix(text, name), name)


# ---------------------------------------------------------------- step 2
def py2_div(a, b):
    import numpy as np
    ints = (int, np.integer)
    if isinstance(a, ints) and isinstance(b, ints):
        return a // b
    if isinstance(a, (np.ndarray,) + ints) and isinstance(b, (np.ndarray,) + ints):
        if np.asarray(a).dtype.kind in 'iub' and np.asarray(b).dtype.kind in 'iub':
            return a // b
    return a / b


def _isdict(o):
    return isinstance(o, dict)


def py2_keys(o):
    return list(o.keys()) if _isdict(o) else o.keys()


def py2_values(o):
    return list(o.values()) if _isdict(o) else o.values()


def py2_items(o):
    return list(o.items()) if _isdict(o) else o.items()


def py2_iterkeys(o):
    return iter(o.keys()) if not hasattr(o, 'iterkeys') else o.iterkeys()


def py2_itervalues(o):
    return iter(o.values()) if not hasattr(o, 'itervalues') else o.itervalues()


def py2_iteritems(o):
    return iter(o.items()) if not hasattr(o, 'iteritems') else o.iteritems()


def py2_has_key(o, k):
    return (k in o) if not hasattr(o, 'has_key') else o.has_key(k)


def py2_im_func(o):
    return getattr(o, '__func__', o)


def py2_map(f, *seqs):
    if f is None:
        f = (lambda *a: a) if len(seqs) > 1 else (lambda a: a)
    if len(seqs) == 1:
        return [f(x) for x in seqs[0]]
    import itertools
    return [f(*x) for x in itertools.zip_longest(*seqs)]


def py2_filter(f, seq):
    r = [x for x in seq if (x if f is None else f(x))]
    if isinstance(seq, tuple):
        return tuple(r)
    if isinstance(seq, str):
        return ''.join(r)
    return r


def py2_zip(*seqs):
    return list(builtins.zip(*seqs))


def py2_range(*a):
    return list(builtins.range(*a))


def py2_round(x, n=0):
    import math
    m = 10.0 ** n
    return math.copysign(math.floor(abs(x) * m + 0.5) / m, x)


def py2_cmp(a, b):
    return (a > b) - (a < b)


_METHODS = {
    'keys': (0, '__py2_keys__'), 'values': (0, '__py2_values__'),
    'items': (0, '__py2_items__'), 'iterkeys': (0, '__py2_iterkeys__'),
    'itervalues': (0, '__py2_itervalues__'),
    'iteritems': (0, '__py2_iteritems__'), 'has_key': (1, '__py2_has_key__'),
}
_ATTRS = {'func_code': '__code__', 'func_name': '__name__',
          'func_defaults': '__defaults__',
          'im_self': '__self__'}
_MODULES = {'cPickle': '_py2_cPickle', 'pickle': '_py2_cPickle',
            'base64': '_py2_base64', 'StringIO': 'io', 'cStringIO': 'io'}

GLOBALS = {
    '__py2_div__': py2_div, '__py2_keys__': py2_keys,
    '__py2_values__': py2_values, '__py2_items__': py2_items,
    '__py2_iterkeys__': py2_iterkeys, '__py2_itervalues__': py2_itervalues,
    '__py2_iteritems__': py2_iteritems, '__py2_has_key__': py2_has_key,
    '__py2_im_func__': py2_im_func,
    'map': py2_map, 'filter': py2_filter, 'zip': py2_zip, 'range': py2_range,
    'xrange': builtins.range, 'unicode': str, 'basestring': str, 'long': int,
    'reduce': functools.reduce, 'unichr': chr, 'raw_input': builtins.input,
    'round': py2_round, 'cmp': py2_cmp,
}


_ORD = {ast.Lt: '__py2_lt__', ast.LtE: '__py2_le__', ast.Gt: '__py2_gt__',
        ast.GtE: '__py2_ge__'}


def _order(o):
    """Python 2's arbitrary but consistent order of unlike types."""
    if o is None:
        return (0, '')
    import numbers
    if isinstance(o, numbers.Number):
        return (1, '')
    return (2, type(o).__name__)


def _mkord(op):
    def f(a, b):
        try:
            return op(a, b)
        except TypeError:
            x, y = _order(a), _order(b)
            if x == y:
                raise
            return op(x, y)
    return f


_CMP = {'__py2_lt__': _mkord(operator.lt), '__py2_le__': _mkord(operator.le),
        '__py2_gt__': _mkord(operator.gt), '__py2_ge__': _mkord(operator.ge)}


def py2_chain(ops, left, *rest):
    for op, r in builtins.zip(ast.literal_eval(ops), rest):
        right = r()
        res = _CMP[op](left, right)
        if not res:
            return res
        left = right
    return res


GLOBALS.update(_CMP)
GLOBALS['__py2_chain__'] = py2_chain


class Py2(ast.NodeTransformer):

    def __init__(self, fname, tree):
        self.dir = os.path.dirname(fname)
        futures = {a.name for n in tree.body if isinstance(n, ast.ImportFrom)
                   and n.module == '__future__' for a in n.names}
        self.truediv = 'division' in futures
        self.absimport = 'absolute_import' in futures

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(
            ast.Name(name, ast.Load()), args, []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.truediv:
            return self._call('__py2_div__', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.truediv:
            import copy
            load = copy.deepcopy(node.target)
            for n in ast.walk(load):
                if hasattr(n, 'ctx') and n is load:
                    n.ctx = ast.Load()
            return ast.copy_location(ast.Assign(
                [node.target],
                self._call('__py2_div__', [load, node.value], node)), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in _METHODS \
                and not node.keywords:
            n, name = _METHODS[f.attr]
            if len(node.args) == n and \
                    not any(isinstance(a, ast.Starred) for a in node.args):
                return self._call(name, [f.value] + node.args, node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(type(o) in _ORD for o in node.ops):
            return node
        if len(node.ops) == 1:
            return self._call(_ORD[type(node.ops[0])],
                              [node.left, node.comparators[0]], node)
        # chain: evaluate each operand once, left to right, short-circuiting
        if not all(type(o) in _ORD for o in node.ops):
            return node
        args = [ast.Constant([_ORD[type(o)] for o in node.ops].__repr__()),
                node.left]
        none = ast.arguments([], [], None, [], [], None, [])
        args += [ast.Lambda(none, c) for c in node.comparators]
        return self._call('__py2_chain__', args, node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in ('im_func', '__func__') and isinstance(node.ctx, ast.Load):
            return self._call('__py2_im_func__', [node.value], node)
        node.attr = _ATTRS.get(node.attr, node.attr)
        return node

    def _local(self, name):
        if self.absimport or not name:
            return False
        p = os.path.join(self.dir, name.split('.')[0])
        return os.path.exists(p + '.py') or \
            os.path.exists(os.path.join(p, '__init__.py'))

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in _MODULES:
                out.append(ast.Import([ast.alias(
                    _MODULES[a.name], a.asname or a.name)]))
            elif '.' not in a.name and self._local(a.name):
                out.append(ast.ImportFrom(
                    None, [ast.alias(a.name, a.asname)], 1))
            else:
                out.append(ast.Import([a]))
        return [ast.copy_location(o, node) for o in out]

    def visit_ImportFrom(self, node):
        if not node.level and node.module in _MODULES:
            node.module = _MODULES[node.module]
        elif not node.level and self._local(node.module):
            node.level = 1
        return node


def translate(path, text=None):
    if text is None:
        with open(path, encoding='utf-8') as f:
            text = f.read()
    tree = parse(text, path)
    tree = Py2(path, tree).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


# ------------------------------------------------------------- shim modules
def _shims():
    import base64
    import pickle
    p = types.ModuleType('_py2_cPickle')
    for k in dir(pickle):
        if not k.startswith('__'):
            setattr(p, k, getattr(pickle, k))

    def raw(f):
        return getattr(f, 'buffer', f)
    p.load = lambda f: pickle.load(raw(f))
    p.dump = lambda o, f, protocol=2: (raw(f).write(pickle.dumps(o, 2)), None)[1]
    p.dumps = lambda o, protocol=2: pickle.dumps(o, 2)
    p.loads = lambda s: pickle.loads(
        s.encode('latin-1') if isinstance(s, str) else s)
    sys.modules['_py2_cPickle'] = p

    b = types.ModuleType('_py2_base64')
    for k in dir(base64):
        if not k.startswith('__'):
            setattr(b, k, getattr(base64, k))

    def enc(s):
        return s.encode('latin-1') if isinstance(s, str) else s
    b.b64encode = lambda s: base64.b64encode(enc(s)).decode('ascii')
    b.b64decode = lambda s: base64.b64decode(enc(s))
    sys.modules['_py2_base64'] = b


def _libs():
    """Names that numpy/scipy removed since the versions cgpm was written for."""
    import numpy as np
    import scipy
    import scipy.special
    for k, v in (('float', float), ('int', int), ('bool', bool),
                 ('object', object), ('long', int), ('str', str),
                 ('asscalar', lambda a: a.item())):
        if k not in np.__dict__:
            setattr(np, k, v)
    try:
        import scipy.misc as misc
    except ImportError:
        misc = types.ModuleType('scipy.misc')
        sys.modules['scipy.misc'] = scipy.misc = misc
    if not hasattr(misc, 'logsumexp'):
        misc.logsumexp = scipy.special.logsumexp
    np.seterr(all='ignore')


# ------------------------------------------------------------------- importer
class Loader(importlib.abc.Loader):

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        module.__dict__.update(GLOBALS)
        exec(translate(self.path), module.__dict__)

    def is_package(self, fullname):
        return os.path.basename(self.path) == '__init__.py'


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, top, root):
        self.top, self.root = top, root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.top and not fullname.startswith(self.top + '.'):
            return None
        rel = fullname.split('.')[1:]
        base = os.path.join(self.root, *rel)
        for cand, pkg in ((os.path.join(base, '__init__.py'), True),
                          (base + '.py', False)):
            if os.path.isfile(cand):
                spec = importlib.machinery.ModuleSpec(
                    fullname, Loader(cand), origin=cand, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        if fullname == self.top + '.version':
            m = types.ModuleType(fullname)
            m.__version__ = '0.0.0'
            sys.modules[fullname] = m
            return importlib.machinery.ModuleSpec(fullname, _Const())
        return None


class _Const(importlib.abc.Loader):
    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__version__ = '0.0.0'
        return m

    def exec_module(self, module):
        pass


def install(repo=None):
    root = os.path.join(repo, 'src') if repo else SRC
    if any(isinstance(f, Finder) and f.top == 'cgpm' for f in sys.meta_path):
        return
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    _shims()
    _libs()
    sys.meta_path.insert(0, Finder('cgpm', root))
