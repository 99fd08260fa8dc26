"""Trusted models of the libraries the repository uses (numpy, scipy, autograd, sqlite3, ...), over symbolic arrays.

Only documented input/output behaviour is modelled; anything else raises Unsupported, which makes the function
undecided for the verifier (it is then only checked by running it)."""
import types
import math as _math
import sqlite3 as _sqlite
import itertools as _it
from fractions import Fraction
from . import core, arr
from .core import TE, te, ZERO, ONE, Unsupported, HEADS
from .arr import Arr, Sc, BArr, asarr, out, isnum, te_of, LinAlgError, LinAlgWarning, DType
from .sym import SymBool, rel, tobool


# ------------------------------------------------------------------ world: effects outside the heap
class World:
    """Recorded effects of one path: random draws, database statements, prints, seeds."""
    cur = None

    def __init__(self):
        self.events = []
        self.ndraw = 0
        self.databases = {}

    def event(self, kind, *a):
        self.events.append((kind,) + a)


_fresh = {}


def fresh_head(name, dims=(), sym=False, **meta):
    """Named input atom; the same name gives the same atom on every path."""
    key = (name, tuple(d.uid for d in dims), sym, tuple(sorted((k, v) for k, v in meta.items() if isinstance(v, (bool, int, Fraction)))))
    h = _fresh.get(key)
    if h is None:
        h = core.new_head(name, 'base', dims, sym, (), **meta)
        _fresh[key] = h
    return h


def fresh_array(name, axes, **meta):
    """Array of fresh atoms over the given axes."""
    axes = [tuple(a) for a in axes]
    bl = {}
    for pos in arr.positions(axes):
        dims = [axes[i][p] for i, p in enumerate(pos) if axes[i][p] != 1]
        ids = [i for i, p in enumerate(pos) if axes[i][p] != 1]
        nm = name if all(len(a) == 1 for a in axes) else name + '_' + '_'.join(str(p) for p in pos)
        h = fresh_head(nm, dims, input=True, array=(name, tuple(pos), tuple(axes)), **meta)
        bl[pos] = core.atom(h, *ids)
    return Arr(axes, bl)


def dropdtype(k):
    for n in ('dtype', 'order', 'copy', 'subok', 'out', 'like', 'casting', 'optimize', 'where'):
        v = k.pop(n, None)
        if n == 'out' and v is not None:
            raise Unsupported('out= argument')
    if k:
        raise Unsupported('keyword %s' % sorted(k))


class Lib(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s is not modelled' % (self.__name__, k))


np = Lib('numpy')
nl = Lib('numpy.linalg')
nr = Lib('numpy.random')
np.linalg, np.random = nl, nr
np.__version__ = '1.22.4'


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr)


class ndarray(metaclass=_NDMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Sc) or type(x) is float

    def __subclasscheck__(cls, c):
        return c is Sc or c is float or c is cls


class float_(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Arr):
            if x.size_is_one():
                return Sc(x.entry())
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return x if isinstance(x, Sc) else float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return type(x) in (int, bool) or (isinstance(x, Sc) and x.isint)


class int_(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Arr) and x.size_is_one():
            x = Sc(x.entry())
        if isinstance(x, Sc):
            if x.isint:
                return x
            return x.__int__()
        return int(x, *a)


np.ndarray = ndarray
for _n in ('float64', 'float32', 'float_', 'double', 'floating', 'number', 'generic'):
    setattr(np, _n, float_)
np.float = float
np.int = int
np.bool = bool
np.object = object
for _n in ('int64', 'int32', 'int_', 'integer', 'intp'):
    setattr(np, _n, int_)
np.bool_ = bool
np.newaxis = None
PI = core.new_head('pi', 'base', (), False, (), pos=True, numeric=_math.pi)
np.pi = Sc(core.atom(PI))
np.inf = float('inf')
np.nan = float('nan')
np.e = _math.e


def sig(f):
    return f


def reg(mod, *names):
    def d(f):
        for n in names or (f.__name__,):
            setattr(mod, n, f)
        return f
    return d


@reg(np, 'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'require')
def np_array(x, *a, **k):
    raise NotImplementedError


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    dropdtype(k)
    if isinstance(x, Arr):
        r = x.detached()
    elif hasattr(x, 'epv_asarr'):
        r = x.epv_asarr()
    else:
        if isinstance(x, (str, dict)) or x is None:
            raise Unsupported('object array')
        r = asarr(x)
        if isinstance(x, (list, tuple)) is False and not isinstance(x, (Sc, int, float, Fraction)):
            raise Unsupported('array of %r' % type(x))
    while r.ndim < ndmin:
        r = arr.add_axes(r, [0]).detached()
    return r


def _asarray(x, dtype=None, **k):
    if isinstance(x, Arr):
        return x
    return _array(x, **k)


np.array = _array
np.asarray = np.asanyarray = np.ascontiguousarray = np.asfarray = _asarray


@reg(np)
def copy(x, **k):
    return _array(x)


@reg(np)
def zeros(shape, dtype=None, **k):
    return arr.full(shape, 0)


@reg(np)
def ones(shape, dtype=None, **k):
    return arr.full(shape, 1)


@reg(np)
def empty(shape, dtype=None, **k):
    # unspecified content: fresh atoms
    World.cur.ndraw += 1
    axes = [tuple(arr.dim_of_size(s)) for s in arr.to_shape(shape)]
    for a in axes:
        for p in a:
            if p != 1 and p.uid in arr.BULK:
                raise Unsupported('np.empty of a composite size')
    return fresh_array('empty%d' % World.cur.ndraw, axes)


@reg(np)
def full(shape, v, dtype=None, **k):
    return arr.full(shape, v)


@reg(np)
def zeros_like(x, **k):
    return Arr(asarr(x).axes, {})


@reg(np)
def empty_like(x, **k):
    a = asarr(x)
    World.cur.ndraw += 1
    return fresh_array('empty%d' % World.cur.ndraw, a.axes)


@reg(np)
def ones_like(x, **k):
    a = asarr(x)
    return Arr(a.axes, {p: ONE for p in arr.positions(a.axes)})


@reg(np)
def full_like(x, v, **k):
    a = asarr(x)
    return Arr(a.axes, {p: te_of(v) for p in arr.positions(a.axes)})


@reg(np, 'eye', 'identity')
def eye(N, M=None, k=0, dtype=None, **kw):
    dropdtype(kw)
    return arr.eye(N, M, k)


@reg(np)
def arange(*a, **k):
    dropdtype(k)
    a = [arr.as_index(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return asarr(list(range(*a)))
    raise Unsupported('arange')


@reg(np)
def linspace(a, b, num=50, **k):
    dropdtype(k)
    n = int(num)
    lo, hi = te_of(a), te_of(b)
    if n == 1:
        return asarr([Sc(lo)])
    return asarr([Sc(lo + (hi - lo).scale(Fraction(i, n - 1))) for i in range(n)])


@reg(np)
def vstack(xs, **k):
    a = rows_of(xs)
    if a is not None:
        return arr.transpose(arr.atleast_2d(a)) if a.ndim < 2 else a
    return arr.concatenate([arr.atleast_2d(x) for x in _seq(xs)], 0)


def rows_of(xs, dims=(1, 2)):
    """The stack of a list of unknown length whose elements are numbers or vectors, or None."""
    from . import loops
    if loops.is_sym(xs) and loops.con(loops.as_view(xs).n) is None:
        a = loops.taken(xs).epv_asarr()
        if a.ndim in dims:
            return a
        raise Unsupported('stack of a sequence of unknown length')


@reg(np)
def hstack(xs, **k):
    xs = [arr.atleast_1d(x) for x in _seq(xs)]
    return arr.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@reg(np)
def column_stack(xs):
    a = rows_of(xs)
    if a is not None:
        return arr.transpose(a) if a.ndim == 2 else arr.atleast_2d(a)
    r = []
    for x in _seq(xs):
        a = asarr(x)
        r.append(arr.transpose(arr.atleast_2d(a)) if a.ndim < 2 else a)
    return arr.concatenate(r, 1)


def _seq(xs):
    if isinstance(xs, Arr):
        return list(xs)
    if isinstance(xs, (list, tuple)):
        return list(xs)
    return list(xs)


@reg(np, 'concatenate')
def concatenate(xs, axis=0, **k):
    return arr.concatenate(_seq(xs), axis)


@reg(np)
def append(a, v, axis=None):
    if axis is None:
        return arr.concatenate([arr.ravel(a), arr.ravel(v)], 0)
    return arr.concatenate([a, v], axis)


@reg(np)
def stack(xs, axis=0, **k):
    a = rows_of(xs, (1, 2, 3))
    if a is not None:
        o = list(range(1, a.ndim))
        o.insert(axis if axis >= 0 else axis + a.ndim, 0)
        return arr.transpose(a, o)
    return arr.stack_list(_seq(xs), axis)


@reg(np)
def block(x):
    def rec(x, depth):
        if isinstance(x, list):
            return arr.concatenate([asarr(rec(y, depth - 1)) for y in x], -depth if depth > 0 else -1)
        return arr.atleast_2d(x) if isinstance(x, Arr) else arr.atleast_2d(asarr(x))

    def dep(x):
        return 1 + max(dep(y) for y in x) if isinstance(x, list) else 0
    return rec(x, dep(x))


np.transpose = lambda a, axes=None: arr.transpose(a, axes)
np.swapaxes = lambda a, i, j: asarr(a).swapaxes(i, j)
np.squeeze = lambda a, axis=None: _sq(a, axis)
np.atleast_1d = arr.atleast_1d
np.atleast_2d = arr.atleast_2d
np.ravel = lambda a, order='C': arr.ravel(a)
np.reshape = lambda a, s, order='C': asarr(a).reshape(s)
np.expand_dims = lambda a, axis: _expand(a, axis)
np.broadcast_to = lambda a, shape, **k: arr.broadcast_to(a, shape)
np.roll = lambda a, shift, axis=None: arr.roll(a, shift, axis)
np.diag = lambda a, k=0: arr.diag(a, k)
np.diagonal = lambda a: arr.diag(a)
np.diagflat = lambda a: arr.diag(arr.ravel(a))
np.trace = lambda a: arr.trace(a)
np.kron = arr.kron
np.dot = lambda a, b, **k: arr.dot(a, b)
np.matmul = lambda a, b, **k: arr.matmul(a, b)
np.einsum = arr.einsum
np.shape = lambda a: np_shape(a)
np.ndim = lambda a: asarr(a).ndim if not hasattr(a, 'ndim') else a.ndim
np.size = lambda a, axis=None: asarr(a).size if axis is None else asarr(a).shape[axis]


def np_shape(a):
    return a.shape if hasattr(a, 'shape') else asarr(a).shape


def _sq(a, axis):
    if isnum(a):
        return asarr(a)
    r = arr.squeeze(asarr(a), axis)
    return r


def _expand(a, axis):
    a = asarr(a)
    axs = list(axis) if isinstance(axis, (tuple, list)) else [axis]
    return arr.add_axes(a, axs)


@reg(np)
def moveaxis(a, s, d):
    a = asarr(a)
    n = a.ndim
    if not isinstance(s, int) or not isinstance(d, int):
        raise Unsupported('moveaxis lists')
    order = [i for i in range(n) if i != s % n]
    order.insert(d % n, s % n)
    return arr.transpose(a, tuple(order))


@reg(np)
def rollaxis(a, axis, start=0):
    raise Unsupported('rollaxis')


@reg(np)
def flip(a, axis=None):
    a = asarr(a)
    if axis is None and a.ndim == 1:
        axis = 0
    if axis is None:
        raise Unsupported('flip')
    key = [slice(None)] * a.ndim
    key[axis] = slice(None, None, -1)
    return a[tuple(key)]


@reg(np)
def outer(a, b):
    return arr.einsum_core([arr.ravel(a), arr.ravel(b)], [['i'], ['j']], ['i', 'j'])


@reg(np)
def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim <= 1 and b.ndim <= 1:
        return arr.dot(a, b)
    return arr.dot(a, arr.transpose(b))


@reg(np)
def vdot(a, b):
    return arr.dot(arr.ravel(a), arr.ravel(b))


@reg(np)
def tensordot(a, b, axes=2):
    if axes == 1:
        return arr.dot(a, b)
    raise Unsupported('tensordot')


@reg(np)
def tile(a, reps):
    a = asarr(a)
    if isinstance(reps, int) and a.ndim == 1:
        return arr.concatenate([a] * reps, 0)
    if isinstance(reps, (tuple, list)) and len(reps) == 2:
        r, c = [arr.as_index(x) for x in reps]
        a = arr.atleast_2d(a)
        if isinstance(c, int):
            if c != 1:
                a = arr.concatenate([a] * c, 1)
            if isinstance(r, int):
                return arr.concatenate([a] * r, 0)
            if a.axes[0] == (1,):
                return arr.broadcast_to(a, (r, a.shape[1])).detached()
    raise Unsupported('tile')


@reg(np)
def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is not None and isinstance(arr.as_index(n), int) and all(p == 1 for p in a.axes[axis]):
        idx = [i for i in range(len(a.axes[axis])) for _ in range(n)]
        key = [slice(None)] * a.ndim
        key[axis] = idx
        return a[tuple(key)]
    if axis is not None and a.axes[axis] == (1,):
        s = list(a.shape)
        s[axis] = n
        return arr.broadcast_to(a, s).detached()
    raise Unsupported('repeat')


@reg(np)
def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if fweights is not None or aweights is not None:
        raise Unsupported('weighted cov')
    X = arr.atleast_2d(m)
    if not rowvar and X.shape[0] != 1:
        X = arr.transpose(X)
    if y is not None:
        Y = arr.atleast_2d(y)
        if not rowvar and Y.shape[0] != 1:
            Y = arr.transpose(Y)
        X = arr.concatenate([X, Y], 0)
    if ddof is None:
        ddof = 0 if bias else 1
    n = X.shape[1]
    d = X - arr.mean(X, 1, True)
    c = arr.matmul(d, arr.transpose(d)) / (n - ddof)
    return arr.squeeze(c) if isinstance(c, Arr) else c


def el(name):
    def f(x, *a, **k):
        if a:
            raise Unsupported('out argument')
        dropdtype(k)
        if isinstance(x, (list, tuple)):
            x = asarr(x)
        if isinstance(x, Arr):
            return arr.map1(lambda t: core.fn(name, t), x)
        if isnum(x):
            return Sc(core.fn(name, te_of(x)))
        raise TypeError('bad operand for ' + name)
    f.__name__ = name
    return f


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'arctan', 'tanh', 'sinh', 'cosh', 'square', 'sign'):
    setattr(np, _n, el(_n))
np.abs = np.absolute = np.fabs = el('abs')
np.arctan2 = lambda a, b, **k: _f2('arctan2', a, b)
np.maximum = lambda a, b, **k: _f2('maximum', a, b)
np.minimum = lambda a, b, **k: _f2('minimum', a, b)
np.hypot = lambda a, b: np.sqrt(np.square(a) + np.square(b))
np.power = lambda a, b, **k: (asarr(a) if not isnum(a) else a) ** b
np.add = lambda a, b, **k: _op(lambda x, y: x + y, a, b, k)
np.subtract = lambda a, b, **k: _op(lambda x, y: x - y, a, b, k)
np.multiply = lambda a, b, **k: _op(lambda x, y: x * y, a, b, k)
np.divide = np.true_divide = lambda a, b, **k: _op(arr.safe_div, a, b, k)
np.negative = lambda a: -a
np.reciprocal = lambda a: 1 / a
np.deg2rad = np.radians = lambda x: x * np.pi / 180
np.rad2deg = np.degrees = lambda x: x * 180 / np.pi
np.log1p = lambda x: np.log(1 + x)
np.expm1 = lambda x: np.exp(x) - 1
np.real = lambda x: x
np.conj = np.conjugate = lambda x: x
np.nan_to_num = lambda x, **k: x
np.float_power = np.power
np.multiply.outer = outer
np.subtract.outer = lambda a, b: arr.ravel(a)[:, None] - arr.ravel(b)[None, :]


def _op(f, a, b, k):
    o = k.pop('out', None)
    dropdtype(k)
    r = arr.ufunc2(f, a, b)
    if o is not None:
        if isinstance(o, tuple):
            o = o[0]
        o._inplace(r)
        return o
    return r


def _f2(name, a, b):
    r = arr.ufunc2(lambda x, y: core.fn2(name, x, y), a, b)
    return r


@reg(np, 'sum')
def np_sum(a, axis=None, keepdims=False, **k):
    dropdtype(k)
    if isinstance(a, types.GeneratorType):
        a = list(a)
    if sequence_of(a):
        return loops_of().np_total(a, axis, keepdims, False)
    return arr.reduce_sum(asarr(a), axis, keepdims)


def loops_of():
    from . import loops
    return loops


def sequence_of(a):
    return not isinstance(a, Arr) and loops_of().is_sym(a)


@reg(np, 'mean', 'nanmean')
def np_mean(a, axis=None, keepdims=False, **k):
    dropdtype(k)
    if hasattr(a, 'epv_mean') and axis is None:
        return a.epv_mean()
    if sequence_of(a):
        return loops_of().np_total(a, axis, keepdims, True)
    return arr.mean(asarr(a), axis, keepdims)


@reg(np)
def average(a, axis=None, weights=None, **k):
    a = asarr(a)
    if weights is None:
        return arr.mean(a, axis)
    w = asarr(weights)
    if axis is None or a.ndim == w.ndim == 1:
        return arr.reduce_sum(a * w) / arr.reduce_sum(w)
    axis %= a.ndim
    ls = ['l%d' % i for i in range(a.ndim)]
    return arr.einsum_core([a, w], [ls, [ls[axis]]], [l for i, l in enumerate(ls) if i != axis]) / arr.reduce_sum(w)


@reg(np)
def var(a, axis=None, ddof=0, **k):
    a = asarr(a)
    m = arr.mean(a, axis, True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    return arr.reduce_sum(d * d, axis) / (n - ddof)


@reg(np)
def std(a, axis=None, ddof=0, **k):
    return np.sqrt(var(a, axis, ddof))


@reg(np)
def cumsum(a, axis=None, **k):
    xs = list(asarr(a))
    r = []
    for x in xs:
        r.append(x if not r else r[-1] + x)
    return asarr(r)


@reg(np)
def prod(a, axis=None, **k):
    a = asarr(a)
    if axis is None and all(p == 1 for ax in a.axes for p in ax):
        t = ONE
        for p in arr.positions(a.axes):
            t = t * a.blocks.get(p, ZERO)
        return Sc(t)
    raise Unsupported('prod')


np.max = np.amax = lambda a, axis=None, **k: _red('max', a, axis)
np.min = np.amin = lambda a, axis=None, **k: _red('min', a, axis)
np.argmax = lambda *a, **k: _unsup('argmax')
np.isclose = lambda a, b, rtol=1e-5, atol=1e-8, **k: close_cond(a, b, rtol, atol)
np.isfinite = lambda a: BArr(asarr(a) * 0, '==')
np.isnan = lambda a: ~BArr(asarr(a) * 0, '==')
np.isinf = np.isnan
np.isscalar = lambda x: isnum(x)


def _unsup(n):
    raise Unsupported(n)


def _red(name, a, axis):
    if isinstance(a, (list, tuple)) and all(isinstance(x, (int, float)) for x in a):
        return max(a) if name == 'max' else min(a)
    return arr.opaque_reduce(name, asarr(a), axis)


def close_cond(a, b, rtol, atol):
    a, b = asarr(a), asarr(b)
    d = np.abs(a - b) - (atol + rtol * np.abs(b))
    return BArr(asarr(d), '<=')


@reg(np)
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return close_cond(a, b, rtol, atol).all()


@reg(np)
def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim or any(not arr.same_size(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return BArr(asarr(a - b), '==').all()


np.all = lambda x, **k: x.all() if not isinstance(x, (Arr, Sc)) and hasattr(x, 'all') else _all(x)
np.any = lambda x, **k: x.any() if not isinstance(x, (Arr, Sc)) and hasattr(x, 'any') else _any(x)


def _all(x):
    if isinstance(x, (list, tuple)):
        return all(bool(y) for y in x)
    if isinstance(x, bool):
        return x
    raise Unsupported('all')


def _any(x):
    if isinstance(x, (list, tuple)):
        return any(bool(y) for y in x)
    if isinstance(x, bool):
        return x
    raise Unsupported('any')


@reg(np)
def where(c, a=None, b=None):
    if isinstance(c, (bool, SymBool)) and a is not None:
        return a if c else b
    if isinstance(c, BArr) and a is not None:
        a2, b2 = asarr(a), asarr(b)
        bl, r = {}, c.arr + 0 * a2 + 0 * b2
        if asarr(r).size_is_one() and isinstance(r, Arr):
            return a if c.all() else b
    raise Unsupported('where')


np.logical_and = lambda a, b: tobool(a) & tobool(b)
np.logical_or = lambda a, b: tobool(a) | tobool(b)
np.logical_not = lambda a: ~tobool(a)
np.set_printoptions = lambda **k: None


class _errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


np.errstate = _errstate
np.seterr = lambda **k: {}
np.ix_ = lambda a, b: (asarr(list(a))[:, None], asarr(list(b))[None, :])


class _Files:
    """np.save / np.load on named files: a store of array values (lossless round trip is trusted)."""
    data = {}


def np_save(f, a, **k):
    if isinstance(f, BytesIO):
        f.store('npy', _array(a))
        return
    World.cur.event('file-write', str(f))
    _Files.data[str(f)] = asarr(a).detached()


def np_load(f, **k):
    if isinstance(f, BytesIO):
        return f.fetch('npy')
    if str(f) in _Files.data:
        return _Files.data[str(f)].detached()
    raise FileNotFoundError(str(f))


np.save, np.load = np_save, np_load

# ------------------------------------------------------------------ linalg
nl.LinAlgError = LinAlgError
nl.inv = lambda a: _inv(a)
nl.pinv = lambda a, **k: _inv(a)
nl.solve = lambda a, b: arr.solve(a, b)
nl.cholesky = lambda a: arr.m_cholesky(a, True)
nl.det = lambda a: Sc(det(a))
nl.slogdet = lambda a: (np.sign(Sc(det(a))), Sc(logdet(a)))
nl.matrix_rank = lambda a: _unsup('matrix_rank')
nl.cond = lambda a, p=None: Sc(arr.opaque_of('cond', asarr(a)))
nl.eigvalsh = nl.eigvals = lambda a, **k: eigvalsh(a)
nl.multi_dot = lambda xs: _mdot(xs)


def _mdot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = arr.dot(r, x)
    return r


def _inv(a):
    arr.require_nonsingular(a)
    return arr.m_inverse(a)


def eigvalsh(a):
    m, p = arr.matrix_of(a)
    if isinstance(m[0], TE):
        for h in core._intern.get(('eig', m[1].uid), []):
            if core.equal(h.args[0], m[0]):
                return Arr((p,), {(0,): core.atom(h, 0)})
        h = core.new_head('eigvalsh', 'eig', (m[1],), False, (m[0],), edim=m[1])
        core._intern.setdefault(('eig', m[1].uid), []).append(h)
        return Arr((p,), {(0,): core.atom(h, 0)})
    if len(m) == 1:
        return Arr((p,), {(0,): m[0][0]})
    raise Unsupported('eigenvalues')


def det(a):
    m, p = arr.matrix_of(a)
    if not isinstance(m[0], TE):
        n = len(m)
        if n == 1:
            return m[0][0]
        if n == 2:
            return m[0][0] * m[1][1] - m[0][1] * m[1][0]
        if all(not m[i][j].d for i in range(n) for j in range(n) if i != j):
            t = ONE
            for i in range(n):
                t = t * m[i][i]
            return t
    return arr.opaque_of('det', asarr(a))


def logdet(a):
    m, p = arr.matrix_of(a)
    if not isinstance(m[0], TE) and len(m) <= 2:
        return core.fn('log', det(a))
    return arr.opaque_of('logdet', asarr(a))


def _triangle(lower):
    def f(x, k=0):
        x = asarr(x)
        if k != 0:
            raise Unsupported('tril with an offset')
        if x.ndim != 2:
            raise Unsupported('tril of a %d-dimensional array' % x.ndim)
        out = {}
        for (i, j), t in x.blocks.items():
            if i != j:
                if (i > j) == lower:
                    out[(i, j)] = t
                continue
            if x.axes[0][i] == 1:
                out[(i, j)] = t
                continue
            for m in t.d:
                fs = [q for q in m if q[1]]
                h = core.HEADS[fs[0][0]] if len(fs) == 1 else None
                good = h is not None and (h.kind == 'delta' or (h.kind in ('chol', 'cholinv') and fs[0][2] == 1
                                                                and fs[0][1] == ((0, 1) if lower else (1, 0))))
                if not good:
                    raise Unsupported('triangle of a general matrix')
            out[(i, j)] = t
        return Arr(list(x.axes), out)
    return f


reg(np, 'tril')(_triangle(True))
reg(np, 'triu')(_triangle(False))


@reg(nl, 'norm')
def norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if axis is not None:
        if ord not in (None, 2):
            raise Unsupported('norm')
        return np.sqrt(arr.reduce_sum(x * x, axis, keepdims))
    if ord in (None, 'fro') or (ord == 2 and x.ndim == 1):
        return Sc(core.sqrt(te_of(arr.reduce_sum(x * x))))
    if x.ndim == 2 and x.size_is_one():
        return Sc(core.fn('abs', x.entry()))
    if not x.blocks:
        return Sc(ZERO)
    return Sc(arr.opaque_of({'nuc': 'nucnorm'}.get(ord, 'norm_%s' % ord), x))


# ------------------------------------------------------------------ random
def _draw(kind, axes, *info):
    w = World.cur
    w.ndraw += 1
    a = fresh_array('draw%d' % w.ndraw, axes, draw=True)
    w.event('draw', kind, a.detached(), *info)
    return a


def size_axes(size):
    if size is None:
        return []
    return [tuple(arr.dim_of_size(s)) for s in arr.to_shape(size)]


def mvn_sample(mean, cov, size=None, *a, **k):
    m, c = asarr(mean), asarr(cov)
    if m.ndim != 1:
        raise ValueError('mean must be 1 dimensional')
    if c.ndim != 2:
        raise ValueError('cov must be 2 dimensional and square')
    if not arr.same_size(c.shape[0], m.shape[0]) or not arr.same_size(c.shape[1], m.shape[0]):
        raise ValueError('mean and cov must have same length')
    return _draw('mvn', size_axes(size) + [m.axes[0]], m.detached(), c.detached(), size)


nr.multivariate_normal = mvn_sample


@reg(nr)
def randn(*shape):
    r = _draw('randn', size_axes(list(shape)), list(shape))
    return out(r)


nr.standard_normal = lambda size=None: out(_draw('randn', size_axes(size), size))
nr.normal = lambda loc=0.0, scale=1.0, size=None: out(loc + scale * _draw('randn', size_axes(size), size))
nr.rand = lambda *s: out(_draw('rand', size_axes(list(s)), list(s)))
nr.random = nr.random_sample = lambda size=None: out(_draw('rand', size_axes(size), size))
nr.uniform = lambda lo=0.0, hi=1.0, size=None: out(lo + (hi - lo) * _draw('rand', size_axes(size), size))


@reg(nr)
def seed(seed=None):
    World.cur.event('seed', seed)


class _OtherGen:
    """A generator other than the global one."""

    def __init__(self, *a, **k):
        World.cur.event('other-generator')

    multivariate_normal = staticmethod(mvn_sample)
    standard_normal = staticmethod(nr.standard_normal)
    randn = staticmethod(randn)
    normal = staticmethod(nr.normal)

    def __getattr__(self, k):
        raise Unsupported('Generator.' + k)


nr.default_rng = nr.RandomState = nr.Generator = _OtherGen

# ------------------------------------------------------------------ scipy
sp = Lib('scipy')
sl = Lib('scipy.linalg')
ss = Lib('scipy.stats')
sp.linalg, sp.stats = sl, ss
sl.LinAlgError, sl.LinAlgWarning = LinAlgError, LinAlgWarning


@reg(sl, 'solve')
def sp_solve(a, b, sym_pos=False, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True,
             assume_a='gen', transposed=False, **k):
    A, B = asarr(a), asarr(b)
    pos = sym_pos or assume_a in ('pos', 'positive definite')
    r = arr.solve(A, B, pos, transposed)
    if overwrite_a and isinstance(a, Arr):
        World.cur.event('overwrite', 'solve')
        a.assign(clobber(a))
    if overwrite_b and isinstance(b, Arr):
        b.assign(clobber(b))
    return r


def clobber(a):
    World.cur.ndraw += 1
    return fresh_array('clobbered%d' % World.cur.ndraw, a.axes)


@reg(sl, 'cholesky')
def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    r = arr.m_cholesky(asarr(a), lower)
    if overwrite_a and isinstance(a, Arr):
        a.assign(clobber(a))
    return r


sl.inv = lambda a, **k: _inv(a)
sl.pinv = sl.pinvh = lambda a, **k: _inv(a)
sl.det = lambda a, **k: Sc(det(a))
sl.norm = norm
sl.block_diag = lambda *xs: block_diag(*xs)
sl.cho_factor = lambda a, lower=False, **k: (arr.m_cholesky(asarr(a), lower), lower)
sl.cho_solve = lambda cl, b, **k: _cho_solve(cl, b)
sl.eigvalsh = eigvalsh


def _cho_solve(cl, b):
    c, low = cl
    A = arr.matmul(c, arr.transpose(c)) if low else arr.matmul(arr.transpose(c), c)
    return arr.matmul(arr.m_inverse(A), asarr(b))


@reg(sl)
def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
    A = asarr(a)
    if unit_diagonal:
        raise Unsupported('unit_diagonal')
    # the triangle that is read must be the whole matrix
    m, p = arr.matrix_of(A)
    if isinstance(m[0], TE):
        if len(m[0].d) == 1 and len(list(m[0].d)[0]) >= 1:
            k = [f for f in list(m[0].d)[0] if f[1]]
            if len(k) == 1 and HEADS[k[0][0]].kind == 'chol':
                islow = k[0][1] == (0, 1)
                if islow != bool(lower):
                    raise Unsupported('wrong triangle')
            elif not (len(k) == 1 and HEADS[k[0][0]].kind == 'delta'):
                raise Unsupported('triangular solve of a general matrix')
        else:
            raise Unsupported('triangular solve of a general matrix')
    else:
        n = len(m)
        for i in range(n):
            for j in range(n):
                if ((j > i) if lower else (j < i)) and m[i][j].d:
                    raise Unsupported('wrong triangle')
    if trans in (1, 'T', 2, 'C'):
        A = arr.transpose(A)
    return arr.solve(A, asarr(b))


def block_diag(*xs):
    xs = [arr.atleast_2d(x) for x in xs]
    rows = []
    for i, x in enumerate(xs):
        rows.append(arr.concatenate([x if i == j else arr.full((x.shape[0], y.shape[1]), 0) for j, y in enumerate(xs)], 1))
    return arr.concatenate(rows, 0)


def mvn_logpdf(x, mean=None, cov=1, allow_singular=False):
    m = arr.atleast_1d(asarr(mean if mean is not None else 0))
    c = asarr(cov)
    d = m.shape[0]
    if c.ndim == 0:
        c = c * arr.eye(d)
    elif c.ndim == 1:
        c = arr.diag(c)
    if m.ndim != 1:
        raise ValueError("Array 'mean' must be a vector")
    if not arr.same_size(c.shape[0], d) or not arr.same_size(c.shape[1], d):
        raise ValueError("Array 'cov' must be square if it is two dimensional, and match 'mean'")
    if not arr.is_pd(c):
        raise Unsupported('density of a degenerate Gaussian')
    x = asarr(x)
    if x.ndim == 0:
        x = arr.add_axes(x, [0])
    elif x.ndim == 1 and isinstance(d, int) and d == 1 and not x.size_is_one():
        x = arr.add_axes(x, [1])
    if x.ndim == 1 and not arr.same_size(x.shape[0], d):
        raise ValueError('operands could not be broadcast together')
    if x.ndim > 2:
        raise Unsupported('logpdf on a batch')
    dev = x - m
    inv = arr.m_inverse(c)
    if dev.ndim == 1:
        q = arr.einsum('i,ij,j->', dev, inv, dev)
    else:
        q = arr.einsum('ri,ij,rj->r', dev, inv, dev)
        q = arr.squeeze(q) if isinstance(q, Arr) and q.size_is_one() else q
    r = -(q + Sc(logdet(c)) + d * np.log(2 * np.pi)) / 2
    return out(r) if isinstance(r, Arr) else r


class MVN:
    def __call__(self, mean=None, cov=1, allow_singular=False, seed=None):
        f = Lib('frozen')
        f.logpdf = lambda x: mvn_logpdf(x, mean, cov, allow_singular)
        f.pdf = lambda x: np.exp(mvn_logpdf(x, mean, cov, allow_singular))
        f.rvs = lambda size=1, random_state=None: self.rvs(mean, cov, size, random_state)
        f.mean, f.cov = mean, cov
        return f

    def logpdf(self, x, mean=None, cov=1, allow_singular=False):
        return mvn_logpdf(x, mean, cov, allow_singular)

    def pdf(self, x, mean=None, cov=1, allow_singular=False):
        return np.exp(mvn_logpdf(x, mean, cov, allow_singular))

    def rvs(self, mean=None, cov=1, size=1, random_state=None):
        if random_state is not None:
            World.cur.event('other-generator')
        r = mvn_sample(mean, cov, None if size == 1 else size)
        return r


ss.multivariate_normal = MVN()


class _Norm:
    def logpdf(self, x, loc=0, scale=1):
        z = (x - loc) / scale
        return -(z * z + np.log(2 * np.pi)) / 2 - np.log(scale)

    def __getattr__(self, k):
        raise Unsupported('norm.' + k)


ss.norm = _Norm()

# ------------------------------------------------------------------ autograd
ag = Lib('autograd')
ag.numpy = np
agss = Lib('autograd.scipy.stats')
agss.multivariate_normal = MVN()
agss.norm = _Norm()
ags = Lib('autograd.scipy')
ags.stats = agss
ag.scipy = ags
_probe = [0]         # nesting depth: the probes of one depth are shared, they do not outlive the call
_probes = {}


def jacobian(fun, argnum=0):
    def jac(*args, **kw):
        x = args[argnum]
        a = asarr(x)
        axes = a.axes
        if sum(1 for ax in axes for p in ax if p != 1) > 1 and any(len(ax) > 1 for ax in axes):
            raise Unsupported('jacobian at a mixed partition')
        nsym = [i for i, ax in enumerate(axes) if ax != (1,)]
        if len(nsym) > 1:
            raise Unsupported('jacobian with respect to a matrix')
        pid = _probe[0]
        probe, heads = {}, {}
        for pos in arr.positions(axes):
            dims = [axes[i][p] for i, p in enumerate(pos) if axes[i][p] != 1]
            ids = [i for i, p in enumerate(pos) if axes[i][p] != 1]
            pk = (pid, pos, tuple(getattr(d, 'uid', d) for d in dims))
            if pk not in _probes:
                _probes[pk] = core.new_head('probe%d' % pid, 'probe', dims)
            h = _probes[pk]
            heads[pos] = h
            probe[pos] = core.atom(h, *ids)
        pa = Arr(axes, probe)
        _probe[0] += 1
        try:
            y = fun(*[pa if i == argnum else v for i, v in enumerate(args)], **kw)
        finally:
            _probe[0] -= 1
        if not isinstance(y, (Arr, Sc)):
            if isnum(y):
                return asarr(0) * a
            raise TypeError("Can't differentiate w.r.t. output of type %s" % type(y))
        y = asarr(y)
        n = y.ndim
        raxes = list(y.axes) + list(axes)
        bl = {}

        def at(s, pos):
            t = a.blocks.get(pos, ZERO)
            ids = [i for i, p in enumerate(pos) if axes[i][p] != 1]
            return t.rename({i: b for i, b in zip(ids, s)})
        for yp in arr.positions(y.axes):
            t = y.blocks.get(yp, ZERO)
            if not t.d:
                continue
            for xp in arr.positions(axes):
                h = heads[xp]
                new = [n + i for i, p in enumerate(xp) if axes[i][p] != 1]
                d = core.diff(t, h.uid, new[0] if new else None, h.dims[0] if h.dims else None)
                for pos2, h2 in heads.items():
                    d = core.subst(d, h2.uid, lambda s, pos2=pos2: at(s, pos2))
                if d.d:
                    bl[yp + xp] = d
        return Arr(raxes, bl)
    return jac


ag.jacobian = jacobian


def grad(fun, argnum=0):
    j = jacobian(fun, argnum)

    def g(*a, **k):
        r = j(*a, **k)
        return r
    return g


ag.grad = grad
ag.elementwise_grad = lambda *a: _unsup('elementwise_grad')

# ------------------------------------------------------------------ stdlib stand-ins
warnings = Lib('warnings')
warnings.filterwarnings = lambda *a, **k: None
warnings.simplefilter = lambda *a, **k: None
warnings.warn = lambda *a, **k: None
warnings.catch_warnings = _errstate

logging = Lib('logging')


class _Logger:
    def __getattr__(self, k):
        return lambda *a, **kw: None


for _n in ('FATAL', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
    setattr(logging, _n, 0)
logging.basicConfig = lambda *a, **k: None
logging.getLogger = lambda *a, **k: _Logger()
logging.debug = logging.info = logging.warning = logging.error = lambda *a, **k: None

click = Lib('click')
click.command = lambda *a, **k: (lambda f: f)
click.option = lambda *a, **k: (lambda f: f)
click.argument = lambda *a, **k: (lambda f: f)
click.Choice = lambda *a, **k: str
click.INT = int
click.FLOAT = float
click.Path = lambda *a, **k: str
click.echo = lambda *a, **k: None

math = Lib('math')
for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'tanh'):
    setattr(math, _n, el(_n))
math.pi = np.pi
math.atan2 = np.arctan2
math.fabs = np.abs
math.inf = float('inf')
math.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: _unsup('isclose')
math.floor = lambda x: _math.floor(x) if not isinstance(x, Sc) else _unsup('floor')
math.ceil = lambda x: _math.ceil(x) if not isinstance(x, Sc) else _unsup('ceil')

plt = Lib('matplotlib.pyplot')


# ------------------------------------------------------------------ io / sqlite3 / pickle (trusted round trips)
class Blob:
    """Opaque serialised value."""

    def __init__(self, how, value):
        self.how, self.value = how, value


class BytesIO:
    def __init__(self, b=None):
        self.content = b.value_chain() if isinstance(b, Binary) else (Blob('bytes', b) if isinstance(b, bytes) else b)
        self.pos = 0

    def store(self, how, v):
        if self.content is not None:
            raise Unsupported('two writes to a buffer')
        self.content = Blob(how, v)
        self.pos = 1

    def fetch(self, how):
        if self.pos != 0:
            raise EOFError('No data left in file')
        if self.content is None or self.content.how != how:
            raise Unsupported('reading another format')
        self.pos = 1
        v = self.content.value
        return v.detached() if isinstance(v, Arr) else v

    def seek(self, p, w=0):
        if p != 0 or w != 0:
            raise Unsupported('seek')
        self.pos = 0

    def read(self, n=-1):
        if self.pos != 0:
            return Blob('bytes', b'')
        self.pos = 1
        return self.content if self.content is not None else Blob('bytes', b'')

    def getvalue(self):
        return self.content

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Binary:
    def __init__(self, x):
        self.x = x

    def value_chain(self):
        return self.x


io = Lib('io')
io.BytesIO = BytesIO
pickle = Lib('pickle')
import pickle as _pk
pickle.UnpicklingError = _pk.UnpicklingError
pickle.PickleError = _pk.PickleError
pickle.HIGHEST_PROTOCOL = 5
pickle.DEFAULT_PROTOCOL = 4
pickle.dumps = lambda o, protocol=None, **k: Blob('pickle', _snap(o))


def _snap(o):
    if isinstance(o, list):
        return [_snap(x) for x in o]
    if isinstance(o, tuple):
        return tuple(_snap(x) for x in o)
    if isinstance(o, Arr):
        return o.detached()
    return o


def pickle_loads(b, **k):
    if isinstance(b, Binary):
        b = b.x
    if isinstance(b, bytes):
        import pickle as _p
        return _p.loads(b)
    if not isinstance(b, Blob) or b.how != 'pickle':
        raise Unsupported('unpickling another format')
    return _snap(b.value)


pickle.loads = pickle_loads

sqlite3 = Lib('sqlite3')
sqlite3.Binary = Binary
sqlite3.PARSE_DECLTYPES = _sqlite.PARSE_DECLTYPES
sqlite3.PARSE_COLNAMES = _sqlite.PARSE_COLNAMES
sqlite3.Row = _sqlite.Row
for _e in ('Warning', 'Error', 'InterfaceError', 'DatabaseError', 'DataError', 'OperationalError', 'IntegrityError',
           'InternalError', 'ProgrammingError', 'NotSupportedError'):
    setattr(sqlite3, _e, getattr(_sqlite, _e))


class _Registry:
    """Adapters of this path; converters go to the SQLite library itself (by column type, case-insensitive)."""
    adapters = {}
    blobs = []


def register_adapter(t, f):
    _Registry.adapters[t] = f


def register_converter(name, f):
    _sqlite.register_converter(name, lambda b: f(blob_of(b)))


sqlite3.register_adapter = register_adapter
sqlite3.register_converter = register_converter
_MARK = b'\x00epv-blob-'


def blob_of(b):
    if isinstance(b, bytes) and b.startswith(_MARK):
        return _Registry.blobs[int(b[len(_MARK):])]
    return b


def store(v):
    """A value as SQLite is given it."""
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return v
    if isinstance(v, Sc):
        return arr.number(v)
    for t, f in _Registry.adapters.items():
        if type(v) is t or (t is list and isinstance(v, list)) or (t is ndarray and isinstance(v, Arr) and v.ndim > 0):
            return store(f(v))
    if isinstance(v, Arr) and v.ndim == 0:
        return arr.number(Sc(v.entry()))
    if isinstance(v, Binary):
        v = v.x
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if not isinstance(v, Blob):
            raise TypeError('memoryview: a bytes-like object is required')
    if isinstance(v, Blob):
        _Registry.blobs.append(v)
        return _MARK + str(len(_Registry.blobs) - 1).encode()
    if isinstance(v, Fraction):
        return float(v)
    raise _sqlite.InterfaceError('Error binding parameter - probably unsupported type.')


def fetched(r):
    return None if r is None else tuple(arr.untoken(x) for x in r)


class Cursor:
    def __init__(self, conn):
        self.connection = conn
        self.real = conn.real.cursor()

    def execute(self, q, values=()):
        World.cur.event('sql', str(q), values)
        self.real.execute(str(q), {k: store(v) for k, v in values.items()} if isinstance(values, dict)
                          else tuple(store(v) for v in values))
        return self

    def executemany(self, q, rows):
        for r in rows:
            self.execute(q, r)
        return self

    def fetchall(self):
        return [fetched(r) for r in self.real.fetchall()]

    def fetchone(self):
        return fetched(self.real.fetchone())

    def fetchmany(self, *a, **k):
        return [fetched(r) for r in self.real.fetchmany(*a, **k)]

    def close(self):
        self.real.close()

    def __iter__(self):
        return iter(self.fetchall())

    def __getattr__(self, k):
        if k in ('rowcount', 'lastrowid', 'description'):
            return getattr(self.real, k)
        raise Unsupported('cursor attribute ' + k)


class Connection:
    """The installed SQLite in memory; symbolic values are stored as tokens."""

    def __init__(self, *a, **k):
        self.path = a[0] if a else k.get('database')
        k = {x: y for x, y in k.items() if x in ('detect_types', 'isolation_level')}
        if len(a) > 2:
            k['detect_types'] = a[2]
        if str(self.path) == ':memory:':
            self.real = _sqlite.connect(':memory:', **k)
        else:
            # a file: an in-memory database that lives as long as this path
            w = World.cur
            name = 'file:epv%d_%s?mode=memory&cache=shared' % (id(w), str(self.path).encode().hex())
            if name not in w.databases:
                w.databases[name] = _sqlite.connect(name, uri=True)
            self.real = _sqlite.connect(name, uri=True, **k)

    def cursor(self):
        return Cursor(self)

    def execute(self, q, v=()):
        return Cursor(self).execute(q, v)

    def executemany(self, q, rows):
        return Cursor(self).executemany(q, rows)

    def commit(self):
        World.cur.event('commit')
        self.real.commit()

    def rollback(self):
        World.cur.event('rollback')
        self.real.rollback()

    def close(self):
        World.cur.event('close')
        if self.real.in_transaction:
            self.real.rollback()
        self.real.close()

    @property
    def in_transaction(self):
        return self.real.in_transaction

    @property
    def total_changes(self):
        return self.real.total_changes

    def __enter__(self):
        return self

    def __exit__(self, t, v, b):
        (self.commit if t is None else self.rollback)()
        return False


sqlite3.Connection = Connection
sqlite3.Cursor = Cursor
sqlite3.connect = lambda *a, **k: (World.cur.event('connect', a), Connection(*a, **k))[1]

MODULES = {
    'numpy': np, 'numpy.linalg': nl, 'numpy.random': nr, 'autograd': ag, 'autograd.numpy': np,
    'autograd.numpy.linalg': nl, 'autograd.numpy.random': nr, 'autograd.scipy': ags, 'autograd.scipy.stats': agss,
    'scipy': sp, 'scipy.linalg': sl, 'scipy.stats': ss, 'warnings': warnings, 'logging': logging, 'click': click,
    'math': math, 'io': io, 'sqlite3': sqlite3, 'pickle': pickle, 'matplotlib': plt, 'matplotlib.pyplot': plt,
}
