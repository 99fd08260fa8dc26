"""Loads /repo's current source with the library models in place of the libraries.

The text executed is the repository's own; the mechanical rewriting is:
  * names of builtins that must understand symbolic values (len, range, float, isinstance via metaclasses, ...) are
    supplied through the module's __builtins__;
  * a bare `except:` / `except BaseException` re-raises the engine's own signals first;
  * for-loops, comprehensions and generators over a sequence of unknown length go through the loop rule (loops.py).
Type annotations, docstrings and `if __name__ == '__main__'` blocks have no effect on what is verified."""
import ast
import builtins
import os
import sys
import types
from . import shim, core
from .core import EngineSignal, Unsupported
from .arr import Arr, Sc, asarr

REPO = os.environ.get('EPV_REPO', '/repo')
REAL_OK = {'functools', 'itertools', 'collections', 'abc', 'typing', 'copy', 'operator', 'enum', 'dataclasses', 'types',
           '__future__', 'contextlib', 'numbers', 'string', 're', 'time', 'datetime', 'inspect'}


_code = {}


class SigFix(ast.NodeTransformer):
    """Bare excepts must not swallow the engine's signals."""

    def visit_Try(self, node):
        self.generic_visit(node)
        new = []
        guard = False
        for h in node.handlers:
            if not guard and (h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException')):
                new.append(ast.ExceptHandler(type=ast.Name(id='__epv_signal__', ctx=ast.Load()), name=None,
                                             body=[ast.Raise(exc=None, cause=None)]))
                guard = True
            new.append(h)
        node.handlers = new
        return node


def transform(tree):
    tree = SigFix().visit(tree)
    from . import loops
    tree = loops.transform(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader:
    """One private copy of the repository's modules."""

    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.sources = {}
        b = dict(vars(builtins))
        b.update(BUILTINS)
        b['__import__'] = self.imp
        b['__epv_signal__'] = EngineSignal
        from . import loops
        b.update(loops.HELPERS)
        b.update(loops.BUILTINS)
        self.builtins = b

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in shim.MODULES:
            return shim.MODULES[name]
        path, pkg = self.path_of(name)
        if path is None:
            root = name.split('.')[0]
            if root in REAL_OK or name == 'os':
                import importlib
                return importlib.import_module(name) if name != 'os' else OS
            if not self.path_of(root)[0] and not os.path.isdir(os.path.join(self.root, root)):
                raise Unsupported('library module ' + name)
            raise ImportError('No module named %r' % name)
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        self.sources[name] = src
        code = _code.get((path, src))
        if code is None:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = transform(ast.parse(src, path))
                code = compile(tree, path, 'exec')
            _code[path, src] = code
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            par, _, last = name.rpartition('.')
            setattr(self.mods[par], last, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = (pkg + '.' + name) if name else pkg
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not has(m, f):
                    if self.path_of(name + '.' + f)[0] or (name + '.' + f) in shim.MODULES:
                        self.load(name + '.' + f)
            return m
        if '.' in name:
            return self.load(name.split('.')[0])
        return m


def has(m, f):
    return f in vars(m)


class _OS(types.ModuleType):
    pass


OS = _OS('os')
OS.path = types.SimpleNamespace(join=os.path.join, exists=lambda p: p in shim._Files.data, abspath=lambda p: p,
                                dirname=os.path.dirname, basename=os.path.basename)
OS.getcwd = lambda: '/cwd'
OS.environ = {}


# ------------------------------------------------------------------ builtins
def b_len(x):
    f = getattr(x, 'epv_len', None)
    if f is not None:
        return f()
    return len(x)


def b_sum(xs, start=0):
    from . import loops
    if loops.is_sym(xs):
        return loops.seq_sum(xs, start)
    r = start
    for x in xs:
        r = r + x
    return r


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, (Sc, Arr)):
        raise Unsupported('round')
    return round(x) if n is None else round(x, n)


def b_max(*a, **k):
    r = a[0] if len(a) == 1 else a
    if any(isinstance(x, (Sc, Arr)) for x in r):
        if k:
            raise Unsupported('max')
        xs = list(r)
        m = xs[0]
        for x in xs[1:]:
            if x > m:
                m = x
        return m
    return max(*a, **k)


def b_min(*a, **k):
    r = a[0] if len(a) == 1 else a
    if any(isinstance(x, (Sc, Arr)) for x in r):
        if k:
            raise Unsupported('min')
        xs = list(r)
        m = xs[0]
        for x in xs[1:]:
            if x < m:
                m = x
        return m
    return min(*a, **k)


class _BF(type):
    def __instancecheck__(cls, x):
        return type(x) is float or isinstance(x, Sc)

    def __call__(cls, *a):
        if a and isinstance(a[0], (Sc, Arr)):
            return shim.float_(a[0])
        return float(*a)


class b_float(metaclass=_BF):
    pass


class _BI(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Sc) and x.isint)

    def __call__(cls, *a):
        if a and isinstance(a[0], (Sc, Arr)):
            return shim.int_(a[0])
        return int(*a)


class b_int(metaclass=_BI):
    pass


def b_print(*a, **k):
    shim.World.cur.event('print') if shim.World.cur else None


def b_open(*a, **k):
    raise Unsupported('open()')


def b_hash(x):
    return hash(x)


BUILTINS = {'len': b_len, 'sum': b_sum, 'abs': b_abs, 'round': b_round, 'max': b_max, 'min': b_min,
            'float': b_float, 'int': b_int, 'print': b_print, 'open': b_open}
