"""Symbolic arrays and scalars: what the code under verification computes with instead of ndarray / float."""
import itertools
from fractions import Fraction
from . import core
from .core import TE, te, ZERO, ONE, Dim, Unsupported, HEADS, base, isb
from .sym import SymBool, rel, tobool, Engine


# ------------------------------------------------------------------ sizes and parts
_bulk = []
BULK = set()


def dim_of_size(size):
    """The axis part(s) standing for an axis of the given size: a list of parts (1 or Dim)."""
    if isinstance(size, Sc):
        size = size.t
    if isinstance(size, TE):
        c = size.const()
        if c is None:
            for d in Dim._all:
                if d.uid not in BULK and core.equal(d.size, size):
                    return [d]
            for d in _bulk:
                if core.equal(d.size, size):
                    return [d]
            d = Dim('<%s>' % size, size)
            BULK.add(d.uid)
            _bulk.append(d)
            return [d]
        size = c
    if isinstance(size, bool) or not isinstance(size, (int, Fraction)):
        if isinstance(size, float) and size == int(size):
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise Unsupported('axis size %r' % (size,))
    size = int(size)
    if size < 0:
        raise ValueError('negative dimensions are not allowed')
    if size <= 64:
        return [1] * size
    t = te(size)
    for d in _bulk:
        if core.equal(d.size, t):
            return [d]
    d = Dim('%d' % size, t)
    BULK.add(d.uid)
    _bulk.append(d)
    return [d]


def part_size(p):
    return ONE if p == 1 else p.size


def axis_size(parts):
    t = ZERO
    for p in parts:
        t = t + part_size(p)
    c = t.const()
    return int(c) if c is not None else Sc(t, True)


def same_size(a, b):
    ta, tb = te_of(a), te_of(b)
    return core.equal(ta, tb)


def te_of(x):
    if isinstance(x, Sc):
        return x.t
    if isinstance(x, Arr):
        if x.ndim == 0:
            return x.blocks.get((), ZERO)
        if x.size_is_one():
            return x.entry()
        raise Unsupported('array where a scalar is expected')
    return te(x)


def isnum(x):
    return isinstance(x, (int, float, Fraction, Sc)) and not isinstance(x, SymBool)


def unknown(self, k):
    """Attribute lookup that failed: the model lacks it, or the real thing does."""
    import numpy
    if not k.startswith('__') and (hasattr(numpy.ndarray, k) or hasattr(numpy.float64, k)):
        raise Unsupported('array attribute ' + k)
    raise AttributeError('%r object has no attribute %r' % (type(self).__name__, k))


class Sc:
    """A symbolic real number."""
    __getattr__ = unknown
    __slots__ = ('t', 'isint')
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, t, isint=False):
        self.t = t
        self.isint = isint

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return DType('int' if self.isint else 'float')

    @property
    def real(self):
        return self

    def _bin(self, o, f, iz=False):
        if isinstance(o, Arr):
            return NotImplemented
        if isinstance(o, SymBool):
            raise Unsupported('arithmetic on a condition')
        if not isnum(o):
            return NotImplemented
        return mk(f(self.t, te_of(o)), iz and self.isint and (isinstance(o, int) or (isinstance(o, Sc) and o.isint)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, True)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported('repeat a list a symbolic number of times')
        return self._bin(o, lambda a, b: a * b, True)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: safe_div(a, b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: safe_div(b, a))

    def __floordiv__(self, o):
        c = self.t.const()
        if c is not None and isinstance(o, int):
            return int(c // o)
        # exact division of integer polynomials (2n // 2)
        if isinstance(o, int):
            q = self.t.scale(Fraction(1, o))
            if all(Fraction(v).denominator == 1 for v in q.d.values()):
                return mk(q, True)
        raise Unsupported('floor division')

    def __mod__(self, o):
        raise Unsupported('modulo')
    __rmod__ = __rfloordiv__ = __mod__

    def __neg__(self):
        return mk(-self.t, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(core.fn('abs', self.t))

    def __pow__(self, k, mod=None):
        return power(self, k)

    def __rpow__(self, o):
        return power(o, self)

    def __matmul__(self, o):
        raise ValueError('matmul: Input operand does not have enough dimensions')
    __rmatmul__ = __matmul__

    def _cmp(self, o, f):
        if isinstance(o, Arr):
            return NotImplemented
        if not isnum(o):
            return NotImplemented
        return f(self.t - te_of(o))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return self._cmp(o, lambda d: rel(d, '=='))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return self._cmp(o, lambda d: rel(d, '<'))

    def __le__(self, o):
        return self._cmp(o, lambda d: rel(d, '<='))

    def __gt__(self, o):
        return self._cmp(o, lambda d: rel(-d, '<'))

    def __ge__(self, o):
        return self._cmp(o, lambda d: rel(-d, '<='))

    def __hash__(self):
        return hash(frozenset(self.t.d.items()))

    def __bool__(self):
        r = rel(self.t, '==')
        return not bool(r)

    def __index__(self):
        c = self.t.const()
        if c is not None and c == int(c):
            return int(c)
        raise Unsupported('symbolic number used as an index')

    def __float__(self):
        c = self.t.const()
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        c = self.t.const()
        if c is not None:
            return int(c)
        raise Unsupported('int() of a symbolic number')

    def __repr__(self):
        return '<%s>' % core.show(self.t)

    def __str__(self):
        return token(self)

    def __format__(self, spec):
        return token(self)

    def item(self):
        return self

    def squeeze(self, axis=None):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, *a, **k):
        return self

    def ravel(self):
        return asarr(self).reshape(1)
    flatten = ravel

    def reshape(self, *s, **k):
        return asarr(self).reshape(*s)

    def sum(self, *a, **k):
        return self
    mean = sum

    def conj(self):
        return self

    def is_integer(self):
        return self.isint

    def __getitem__(self, k):
        if k is None:
            return asarr(self)[None]
        if k == () or k is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')

    def __setattr__(self, k, v):
        if k in ('t', 'isint'):
            object.__setattr__(self, k, v)
        else:
            raise AttributeError(k)

    def __reduce_ex__(self, p):
        raise Unsupported('pickling a symbolic number')


class DType:
    def __init__(self, n):
        self.name = n
        self.kind = {'float': 'f', 'int': 'i', 'object': 'O', 'bool': 'b'}.get(n, 'f')

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0


_tokens = []


def number(s):
    """The number that stands for a scalar outside the verifier (in SQL text and stored values): constants stand for
    themselves, every other value has its own large number (equal values the same one)."""
    c = s.t.const()
    if c is not None:
        return int(c) if c == int(c) and s.isint else float(c)
    for i, v in enumerate(_tokens):
        if core.equal(v.t, s.t):
            return TOKEN0 + i * 2.0 ** 600
    _tokens.append(s)
    return TOKEN0 + (len(_tokens) - 1) * 2.0 ** 600


TOKEN0 = 2.0 ** 640


def token(s):
    return repr(number(s))


def untoken(x):
    if isinstance(x, float) and TOKEN0 <= x < TOKEN0 * 1024:
        return _tokens[int((x - TOKEN0) / 2.0 ** 600)]
    return x


def mk(t, isint=False):
    """TE -> Sc (constants stay Sc so that arithmetic stays exact)."""
    return Sc(t, isint)


LONG = 1200


def short_mul(a, b):
    """Product of two terms; factors whose product would be very long are named instead of multiplied out."""
    if len(a.d) * len(b.d) > LONG:
        if len(a.d) > 8:
            a = core.let(a)
        if len(b.d) > 8:
            b = core.let(b)
    return a * b


def safe_div(a, b):
    c = b.const()
    if c is not None and c == 0:
        raise Unsupported('division by zero')
    return a * core.recip(b)


def power(b, e):
    """b ** e for scalars."""
    if isinstance(e, (int, Fraction)) or (isinstance(e, float) and e == int(e)):
        if e == int(e):
            return mk(te_of(b) ** int(e), isinstance(b, Sc) and b.isint and e >= 0)
    if isinstance(e, Sc):
        c = e.t.const()
        if c is not None:
            c = Fraction(c)
            if c.denominator == 1:
                return mk(te_of(b) ** int(c))
            e = c
    if isinstance(e, (float, Fraction)):
        f = Fraction(core.rat(e))
        if f.denominator == 2:
            return mk(core.sqrt(te_of(b)) ** int(f * 2))
    if isinstance(b, (int, float)) and te(b) == ONE:
        return mk(ONE)
    # general real power through an opaque two-argument function
    return mk(core.fn2('rpow', te_of(b), te_of(e)))


class Arr:
    """A symbolic array.  axes: per axis a tuple of parts (1 or Dim);  blocks: part positions -> TE over ids = axis numbers."""
    __array_ufunc__ = None
    __array_priority__ = 1000
    __getattr__ = unknown

    def __init__(self, axes, blocks, base=None, get=None, put=None, dtype=None):
        self.axes = tuple(tuple(a) for a in axes)
        self._blocks = blocks
        self._base, self._get, self._put = base, get, put
        self._own = 0
        self._seen = base.version if base is not None else 0
        self.kind = dtype or 'float'

    # -- storage
    @property
    def version(self):
        return self._own + (self._base.version if self._base is not None else 0)

    @property
    def blocks(self):
        if self._base is not None and self._base.version != self._seen:
            self._blocks = self._get(self._base)._blocks
            self._seen = self._base.version
        return self._blocks

    def assign(self, new):
        """In-place replacement of the content by the array new (same axes)."""
        self.blocks
        self._blocks = dict(new.blocks)
        self._own += 1
        if self._base is not None:
            if self._put is None:
                raise Unsupported('write through a view')
            self._base.assign(self._put(self._base, self))
            self._seen = self._base.version

    def rename_to(self, v):
        """Same contents, written as in v."""
        if v.axes == self.axes and self._base is None:
            self._blocks = dict(v.blocks)
            self._own += 1
            return True
        return False

    def detached(self):
        return Arr(self.axes, dict(self.blocks))

    # -- shape
    @property
    def shape(self):
        return tuple(axis_size(a) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def real(self):
        return self

    @property
    def flat(self):
        return iter(self.ravel())

    def size_is_one(self):
        return all(a == (1,) for a in self.axes)

    def entry(self):
        return self.blocks.get((0,) * self.ndim, ZERO)

    def __len__(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        s = axis_size(self.axes[0])
        if isinstance(s, Sc):
            raise Unsupported('len() of a symbolic axis through the builtin')
        return s

    def epv_len(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        return axis_size(self.axes[0])

    def __iter__(self):
        if not self.axes:
            raise TypeError('iteration over a 0-d array')
        if any(p != 1 for p in self.axes[0]):
            raise Unsupported('iteration over a symbolic axis')
        for i in range(len(self.axes[0])):
            yield self[i]

    # -- arithmetic
    def __add__(self, o):
        return ufunc2(lambda a, b: a + b, self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return ufunc2(lambda a, b: a - b, self, o)

    def __rsub__(self, o):
        return ufunc2(lambda a, b: b - a, self, o)

    def __mul__(self, o):
        return ufunc2(short_mul, self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return ufunc2(safe_div, self, o)

    def __rtruediv__(self, o):
        return ufunc2(lambda a, b: safe_div(b, a), self, o)

    def __neg__(self):
        return map1(lambda t: -t, self)

    def __pos__(self):
        return map1(lambda t: t, self)

    def __abs__(self):
        return map1(lambda t: core.fn('abs', t), self)

    def __pow__(self, k):
        if isinstance(k, Arr) and k.size_is_one():
            k = Sc(k.entry())
        if not isnum(k):
            raise Unsupported('array power')
        return map1(lambda t: power(Sc(t), k).t, self)

    def __rpow__(self, o):
        return map1(lambda t: power(o, Sc(t)).t, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __floordiv__(self, o):
        raise Unsupported('floor division of arrays')
    __mod__ = __rmod__ = __rfloordiv__ = __floordiv__

    def _inplace(self, r):
        if not isinstance(r, Arr):
            r = asarr(r)
        r = conform(r, self)
        self.assign(r)
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self ** o)

    def __imatmul__(self, o):
        return self._inplace(self @ o)

    # -- comparisons
    def _cmp(self, o, op, sgn):
        if not (isinstance(o, Arr) or isnum(o)):
            return NotImplemented
        d = self - o
        if not isinstance(d, Arr):
            d = asarr(d)
        return BArr(d if sgn > 0 else -d, op)

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, '==', 1)

    def __ne__(self, o):
        if o is None:
            return True
        return ~self._cmp(o, '==', 1)

    def __lt__(self, o):
        return self._cmp(o, '<', 1)

    def __le__(self, o):
        return self._cmp(o, '<=', 1)

    def __gt__(self, o):
        return self._cmp(o, '<', -1)

    def __ge__(self, o):
        return self._cmp(o, '<=', -1)
    __hash__ = None

    def __bool__(self):
        if self.size_is_one():
            return bool(Sc(self.entry()))
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size_is_one():
            return float(Sc(self.entry()))
        raise TypeError('only size-1 arrays can be converted to Python scalars')

    def __index__(self):
        if self.ndim == 0:
            return Sc(self.entry()).__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __repr__(self):
        return 'Arr%s{%s}' % (self.shape, ', '.join('%s: %s' % (k, core.show(v, 3)) for k, v in list(self.blocks.items())[:6]))

    def __str__(self):
        return '<<array>>'

    def __format__(self, s):
        return '<<array>>'

    # -- methods
    @property
    def T(self):
        return transpose(self)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes if axes and axes[0] is not None else None)

    def copy(self, order=None):
        return self.detached()

    def astype(self, *a, **k):
        return self.detached()

    def view(self, *a):
        return relabel_view(self, self.axes, lambda p: p, {})

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def ravel(self, order='C'):
        return ravel(self)

    def flatten(self, order='C'):
        return ravel(self).detached()

    def reshape(self, *s, order='C'):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)

    def dot(self, o):
        return dot(self, o)

    def sum(self, axis=None, keepdims=False, **k):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        return mean(self, axis, keepdims)

    def trace(self):
        return trace(self)

    def diagonal(self):
        return diag(self)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if self.size_is_one():
            return Sc(self.entry())
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    def tolist(self):
        if self.ndim == 0:
            return Sc(self.entry())
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def fill(self, v):
        self.assign(full(self.shape, v))

    def all(self, *a, **k):
        raise Unsupported('truth of an array')
    any = all

    def conj(self):
        return self

    def max(self, axis=None, **k):
        return opaque_reduce('max', self, axis)

    def min(self, axis=None, **k):
        return opaque_reduce('min', self, axis)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, tuple(ax))

    def setflags(self, **k):
        pass

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __deepcopy__(self, memo):
        return self.detached()

    def __copy__(self):
        return self.detached()

    def __reduce_ex__(self, p):
        raise Unsupported('pickling a symbolic array')

    def __array__(self, *a, **k):
        raise Unsupported('real numpy reached a symbolic array')


class BArr:
    """Elementwise condition  arr op 0."""
    __array_ufunc__ = None

    def __init__(self, arr, op, negated=False):
        self.arr, self.op, self.negated = arr, op, negated

    @property
    def shape(self):
        return self.arr.shape

    def __invert__(self):
        return BArr(self.arr, self.op, not self.negated)

    def _blocks(self):
        return [self.arr.blocks.get(p, ZERO) for p in positions(self.arr.axes)]

    def _bare(self):
        """(blocks, op) with the negation folded in, or None."""
        if not self.negated:
            return self._blocks(), self.op
        if self.op == '<':
            return [-b for b in self._blocks()], '<='
        if self.op == '<=':
            return [-b for b in self._blocks()], '<'
        return None

    def all(self, *a, **k):
        if any(x is not None for x in a) or k.get('axis') is not None:
            raise Unsupported('all along an axis')
        m = self._bare()
        if m is None:
            return ~tobool((~self).any())
        bl, op = m
        return all_cond(bl, op)

    def any(self, *a, **k):
        if any(x is not None for x in a) or k.get('axis') is not None:
            raise Unsupported('any along an axis')
        r = (~self)
        m = r._bare()
        if m is None:
            # not exists (x == 0)
            if self.arr.size_is_one():
                return rel(self.arr.entry(), '==')
            raise Unsupported('any equal')
        v = all_cond(*m)
        return (not v) if isinstance(v, bool) else ~v

    def __bool__(self):
        if self.arr.size_is_one():
            return bool(self.all())
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __iter__(self):
        raise Unsupported('iterating a condition')

    def __getattr__(self, k):
        raise Unsupported('elementwise condition: ' + k)


def all_cond(bl, op):
    # eigenvalues all positive is positive definiteness
    rest = []
    for b in bl:
        r = rel(b, op)
        if isinstance(r, bool):
            if not r:
                return False
        else:
            rest.append(b)
    if not rest:
        return True
    if len(rest) == 1:
        b = rest[0]
        if not b.free():
            return rel(b, op)
        if op == '<' and len(b.d) == 1:
            (k, v), = b.d.items()
            if len(k) == 1 and HEADS[k[0][0]].name == 'eigvalsh' and v < 0 and k[0][2] == 1:
                h = HEADS[k[0][0]]
                return SymBool('pd', (h.args[0], h.meta['edim']))
    return SymBool('all', op, rest)


# ------------------------------------------------------------------ helpers
def positions(axes):
    return itertools.product(*[range(len(a)) for a in axes])


def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, Sc):
        return Arr((), {(): x.t})
    if isinstance(x, (int, float, Fraction)):
        return Arr((), {(): te(x)})
    if isinstance(x, (list, tuple)):
        return stack_list(list(x))
    if hasattr(x, 'epv_asarr'):
        return x.epv_asarr()
    if isinstance(x, SymBool):
        raise Unsupported('array of conditions')
    raise Unsupported('array of %r' % type(x))


def out(a):
    """0-d arrays leave numpy as scalars."""
    if isinstance(a, Arr) and a.ndim == 0:
        return Sc(a.entry())
    return a


def refinable(t, i):
    """Can the term be split along its index i: the index occurs only in deltas."""
    for k in t.d:
        for (u, s, e) in k:
            if any(base(x) == i for x in s) and HEADS[u].kind != 'delta':
                return False
    return True


def split_part(p, first):
    """Dim p -> [first] + rest."""
    return [first] + dim_of_size(Sc(p.size - part_size(first)))


def refine(a, ax, pos, newparts):
    """Split part number pos of axis ax of a into newparts (content must be delta/constant along it)."""
    old = a.axes[ax][pos]
    dh = core._delta.get(old.uid)
    partner = None
    for p, t in a.blocks.items():
        if p[ax] != pos:
            continue
        for k in t.d:
            for (u, s, e) in k:
                if any(base(x) == ax for x in s):
                    if HEADS[u].kind != 'delta':
                        raise Unsupported('cannot split axis %s' % old.name)
                    o = s[1] if base(s[0]) == ax else s[0]
                    if isb(o) or o >= core.PT:
                        raise Unsupported('cannot split axis')
                    q = (o, p[o])
                    if partner not in (None, q):
                        raise Unsupported('cannot split axis')
                    partner = q
    axes = [list(x) for x in a.axes]

    def expand(axes, blocks, ax, pos, n):
        nb = {}
        for p, t in blocks.items():
            if p[ax] < pos:
                nb[p] = t
            elif p[ax] > pos:
                nb[p[:ax] + (p[ax] + n - 1,) + p[ax + 1:]] = t
            else:
                for q in range(n):
                    nb[p[:ax] + (pos + q,) + p[ax + 1:]] = t
        axes[ax][pos:pos + 1] = list(newparts)
        return nb
    n = len(newparts)
    blocks = expand(axes, a.blocks, ax, pos, n)
    if partner is not None:
        o, opos = partner
        blocks = expand(axes, blocks, o, opos, n)
        nb = {}
        for p, t in blocks.items():
            inA = pos <= p[ax] < pos + n
            inB = opos <= p[o] < opos + n
            if inA and inB:
                qa, qb = p[ax] - pos, p[o] - opos
                nt = ZERO
                for k, v in t.d.items():
                    f = [x for x in k if dh is not None and x[0] == dh.uid and set(x[1]) == {ax, o}]
                    if f:
                        rest = TE({tuple(x for x in k if x not in f): v})
                        if qa == qb:
                            np_ = newparts[qa]
                            nt = nt + (rest if np_ == 1 else rest * core.delta(np_, ax, o))
                    else:
                        nt = nt + TE({k: v})
                t = nt
            if t.d:
                nb[p] = t
        blocks = nb
    return Arr(axes, {p: t for p, t in blocks.items() if t.d})


def same_part(p, q):
    return p is q or (p == 1 and q == 1)


def common(parts_a, parts_b):
    """Common refinement of two partitions of one axis, as a list of (part, splits) or None when sizes differ."""
    a, b = list(parts_a), list(parts_b)
    if not same_size(axis_size(a), axis_size(b)):
        return None
    outp = []
    while a and b:
        p, q = a[0], b[0]
        if same_part(p, q):
            outp.append(p)
            a.pop(0)
            b.pop(0)
            continue
        if p != 1 and (q == 1 or q.uid not in BULK or (p.uid in BULK and not core.equal(p.size, q.size) and _smaller(q, p))):
            a[0:1] = split_part(p, q)
            continue
        if q != 1:
            b[0:1] = split_part(q, p)
            continue
        return None
    return outp if not a and not b else None


def _smaller(q, p):
    d = (p.size - q.size)
    return all(v > 0 for v in d.d.values())


def repartition(a, ax, parts):
    """Bring axis ax of a to the partition parts (a refinement of the present one)."""
    guard = 0
    while True:
        guard += 1
        if guard > 200:
            raise Unsupported('repartition')
        cur = a.axes[ax]
        done = True
        for i, p in enumerate(parts):
            if i >= len(cur):
                raise Unsupported('repartition')
            if same_part(cur[i], p):
                continue
            done = False
            if cur[i] == 1:
                raise Unsupported('repartition')
            # parts consumed by cur[i]
            acc, j = ZERO, i
            take = []
            while j < len(parts) and not core.equal(acc, cur[i].size):
                acc = acc + part_size(parts[j])
                take.append(parts[j])
                j += 1
            a = refine(a, ax, i, take)
            break
        if done:
            return a


def align(a, b):
    """Broadcast-compatible copies of a and b: returns (a, b, axes)."""
    na, nb = a.ndim, b.ndim
    n = max(na, nb)
    guard = 0
    while True:
        guard += 1
        if guard > 50:
            raise Unsupported('align')
        axes = []
        again = False
        for d in range(n):
            ia, ib = d - (n - na), d - (n - nb)
            if ia < 0:
                axes.append(b.axes[ib])
                continue
            if ib < 0:
                axes.append(a.axes[ia])
                continue
            pa, pb = a.axes[ia], b.axes[ib]
            if pa == pb:
                axes.append(pa)
            elif pa == (1,):
                axes.append(pb)
            elif pb == (1,):
                axes.append(pa)
            else:
                c = common(pa, pb)
                if c is None:
                    raise ValueError('operands could not be broadcast together with shapes %s %s' % (a.shape, b.shape))
                if tuple(c) != pa:
                    a = repartition(a, ia, c)
                    again = True
                if tuple(c) != pb:
                    b = repartition(b, ib, c)
                    again = True
                if again:
                    break
                axes.append(tuple(c))
        if not again:
            return a, b, axes


def pick(arr, n, pos):
    """Block of arr broadcast to position pos in an n-d result, renamed to the result axes."""
    k = n - arr.ndim
    p = tuple(0 if arr.axes[i] == (1,) else pos[i + k] for i in range(arr.ndim))
    t = arr.blocks.get(p, ZERO)
    if k and t.d:
        t = t.rename({i: i + k for i in range(arr.ndim)})
    return t


def ufunc2(f, x, y):
    if isinstance(y, (SymBool, BArr)) or isinstance(x, (SymBool, BArr)):
        raise Unsupported('arithmetic on a condition')
    if y is None or isinstance(y, (str, dict)) or x is None or isinstance(x, (str, dict)):
        raise TypeError('unsupported operand type(s)')
    a, b = asarr(x), asarr(y)
    a, b, axes = align(a, b)
    n = len(axes)
    bl = {}
    for pos in positions(axes):
        t = f(pick(a, n, pos), pick(b, n, pos))
        if t.d:
            bl[pos] = t
    return out(Arr(axes, bl))


def map1(f, a):
    bl = {}
    for pos in positions(a.axes):
        t = f(a.blocks.get(pos, ZERO))
        if t.d:
            bl[pos] = t
    return out(Arr(a.axes, bl))


def conform(r, a):
    """r broadcast to the axes of a (for in-place assignment); a's partition may have to be refined too."""
    if r.ndim > a.ndim:
        extra = r.axes[:r.ndim - a.ndim]
        if any(x != (1,) for x in extra):
            raise ValueError('non-broadcastable output operand')
        r = reshape_drop(r, r.ndim - a.ndim)
    z = Arr(a.axes, {})
    x, y, axes = align(z, r)
    if tuple(map(tuple, axes)) != a.axes:
        if any(not same_size(axis_size(p), axis_size(q)) for p, q in zip(axes, a.axes)):
            raise ValueError('non-broadcastable output operand')
        a.axes = tuple(map(tuple, axes))
        if a._base is not None:
            raise Unsupported('in-place write refines a view')
    n = len(axes)
    bl = {}
    for pos in positions(axes):
        t = pick(y, n, pos)
        if t.d:
            bl[pos] = t
    return Arr(axes, bl)


def reshape_drop(r, k):
    return Arr(r.axes[k:], {p[k:]: t.rename({i + k: i for i in range(r.ndim - k)}) for p, t in r.blocks.items()})


# ------------------------------------------------------------------ construction
def to_shape(s):
    if isinstance(s, (list, tuple)):
        return list(s)
    if isinstance(s, Arr):
        return list(s)
    return [s]


def full(shape, v, dtype=None):
    axes = [tuple(dim_of_size(s)) for s in to_shape(shape)]
    t = te_of(v)
    return Arr(axes, {p: t for p in positions(axes)} if t.d else {})


def eye(n, m=None, k=0):
    if m is not None and not same_size(n, m):
        raise Unsupported('rectangular eye')
    if k:
        raise Unsupported('off-diagonal eye')
    parts = tuple(dim_of_size(n))
    return Arr((parts, parts), {(i, i): (ONE if p == 1 else core.delta(p, 0, 1)) for i, p in enumerate(parts)})


def stack_list(xs, axis=0):
    if not xs:
        return Arr(((),), {})
    if all(isnum(x) or isinstance(x, bool) for x in xs):
        if len(xs) > 4000:
            raise Unsupported('long literal array')
        return Arr(((1,) * len(xs),), {(i,): te_of(x) for i, x in enumerate(xs) if te_of(x).d})
    if any(isinstance(x, (str, dict)) or x is None for x in xs):
        raise Unsupported('object array')
    arrs = [asarr(x) for x in xs]
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise Unsupported('ragged array')
    arrs = unify_axes(arrs, range(nd))
    if axis < 0:
        axis += nd + 1
    axes = list(arrs[0].axes)
    axes.insert(axis, (1,) * len(arrs))
    m = {i: (i if i < axis else i + 1) for i in range(nd)}
    bl = {}
    for q, a in enumerate(arrs):
        for p, t in a.blocks.items():
            bl[p[:axis] + (q,) + p[axis:]] = t.rename(m)
    return Arr(axes, bl)


def unify_axes(arrs, which):
    """Give all arrays the same partition along the listed axes (sizes must agree)."""
    arrs = list(arrs)
    for ax in which:
        guard = 0
        while True:
            guard += 1
            if guard > 60:
                raise Unsupported('unify')
            ps = arrs[0].axes[ax]
            ok = True
            for i in range(1, len(arrs)):
                if arrs[i].axes[ax] != ps:
                    c = common(ps, arrs[i].axes[ax])
                    if c is None:
                        raise ValueError('all the input array dimensions for the concatenation axis must match exactly')
                    arrs[0] = repartition(arrs[0], ax, c) if tuple(c) != arrs[0].axes[ax] else arrs[0]
                    arrs[i] = repartition(arrs[i], ax, c) if tuple(c) != arrs[i].axes[ax] else arrs[i]
                    ok = False
                    break
            if ok:
                break
    return arrs


def concatenate(xs, axis=0):
    arrs = [asarr(x) for x in xs]
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise ValueError('all the input arrays must have same number of dimensions')
    if axis is None:
        arrs = [ravel(a) for a in arrs]
        nd, axis = 1, 0
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis %= nd
    arrs = unify_axes(arrs, [i for i in range(nd) if i != axis])
    axes = list(arrs[0].axes)
    parts, bl = [], {}
    for a in arrs:
        o = len(parts)
        parts += list(a.axes[axis])
        for p, t in a.blocks.items():
            bl[p[:axis] + (p[axis] + o,) + p[axis + 1:]] = t
    axes[axis] = tuple(parts)
    return Arr(axes, bl)


# ------------------------------------------------------------------ views
def relabel_view(a, axes, posmap, idmap, invpos=None, invid=None):
    """View whose block p (new positions) is block posmap(p) of a, ids renamed by idmap (old -> new)."""
    axes = tuple(tuple(x) for x in axes)

    def get(b):
        bl = {}
        for p in positions(axes):
            t = b.blocks.get(posmap(p), ZERO)
            if t.d:
                bl[p] = t.rename(idmap)
        return Arr(axes, bl)

    inv = {v: k for k, v in idmap.items()}

    def put(b, v):
        bl = dict(b.blocks)
        for p in positions(axes):
            q = posmap(p)
            t = v.blocks.get(p, ZERO)
            if t.d:
                bl[q] = t.rename(inv)
            else:
                bl.pop(q, None)
        return Arr(b.axes, bl)
    r = get(a)
    r._base, r._get, r._put = a, get, put
    r._seen = a.version
    return r


def transpose(a, axes=None):
    a = asarr(a)
    n = a.ndim
    if axes is None:
        axes = tuple(reversed(range(n)))
    axes = tuple(x % n for x in axes)
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")
    if axes == tuple(range(n)):
        return relabel_view(a, a.axes, lambda p: p, {})
    na = tuple(a.axes[i] for i in axes)
    idmap = {axes[j]: j for j in range(n) if axes[j] != j}

    def posmap(p):
        q = [0] * n
        for j in range(n):
            q[axes[j]] = p[j]
        return tuple(q)
    return relabel_view(a, na, posmap, idmap)


def drop_axes(a, drop):
    keep = [i for i in range(a.ndim) if i not in drop]
    na = tuple(a.axes[i] for i in keep)
    idmap = {i: j for j, i in enumerate(keep) if i != j}

    def posmap(p):
        q = [0] * a.ndim
        for j, i in enumerate(keep):
            q[i] = p[j]
        return tuple(q)
    return relabel_view(a, na, posmap, idmap)


def add_axes(a, where):
    """where: positions of the new unit axes in the result."""
    n = a.ndim + len(where)
    where = [w % n for w in where]
    old = [i for i in range(n) if i not in where]
    na = [(1,)] * n
    for j, i in enumerate(old):
        na[i] = a.axes[j]
    idmap = {j: i for j, i in enumerate(old) if i != j}
    return relabel_view(a, na, lambda p: tuple(p[i] for i in old), idmap)


def squeeze(a, axis=None):
    if not isinstance(a, Arr):
        return a if isnum(a) else squeeze(asarr(a), axis)
    if axis is None:
        drop = [i for i, x in enumerate(a.axes) if x == (1,)]
    else:
        drop = [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
        for i in drop:
            if a.axes[i] != (1,):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    if not drop:
        return relabel_view(a, a.axes, lambda p: p, {})
    return drop_axes(a, drop)


def atleast_1d(*xs):
    r = []
    for x in xs:
        a = x if isinstance(x, Arr) else asarr(x)
        r.append(add_axes(a, [0]) if a.ndim == 0 else a)
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = []
    for x in xs:
        a = x if isinstance(x, Arr) else asarr(x)
        if a.ndim == 0:
            a = add_axes(a, [0, 1])
        elif a.ndim == 1:
            a = add_axes(a, [0])
        r.append(a)
    return r[0] if len(r) == 1 else r


def ravel(a):
    a = asarr(a)
    big = [i for i, x in enumerate(a.axes) if x != (1,)]
    if len(big) == 1:
        return drop_axes(a, [i for i in range(a.ndim) if i != big[0]])
    if not big:
        if a.ndim == 0:
            return add_axes(a, [0])
        return drop_axes(a, list(range(1, a.ndim)))
    return reshape(a, (-1,))


def reshape(a, shape):
    a = asarr(a)
    shape = [x if not isinstance(x, Sc) else (int(x.t.const()) if x.t.const() is not None else x) for x in shape]
    old = list(a.shape)
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    core_old = [(i, s) for i, s in enumerate(old) if not (isinstance(s, int) and s == 1)]
    tot = ONE
    for s in old:
        tot = tot * te_of(s)
    if neg:
        k = ONE
        for i, s in enumerate(shape):
            if i != neg[0]:
                k = k * te_of(s)
        q = tot * core.recip(k)
        c = q.const()
        if c is not None and Fraction(c).denominator != 1:
            raise ValueError('cannot reshape')
        shape[neg[0]] = int(c) if c is not None else Sc(q, True)
    t2 = ONE
    for s in shape:
        t2 = t2 * te_of(s)
    if not core.equal(tot, t2):
        if tot.const() is not None and t2.const() is not None:
            raise ValueError('cannot reshape array of size %s into shape %s' % (tot, shape))
        raise ValueError('cannot reshape array')
    core_new = [(i, s) for i, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]
    if len(core_old) == len(core_new) and all(same_size(x[1], y[1]) for x, y in zip(core_old, core_new)):
        na = [(1,)] * len(shape)
        idmap, pm = {}, {}
        for (i, _), (j, _) in zip(core_old, core_new):
            na[j] = a.axes[i]
            idmap[i] = j
            pm[i] = j
        idmap = {k: v for k, v in idmap.items() if k != v}
        nd = a.ndim
        return relabel_view(a, na, lambda p: tuple(p[pm[i]] if i in pm else 0 for i in range(nd)), idmap)
    if all(p == 1 for x in a.axes for p in x) and all(isinstance(s, int) for s in shape):
        ents = list(positions(a.axes))
        na = [(1,) * s for s in shape]
        news = list(positions(na))
        table = dict(zip(news, ents))
        return relabel_view(a, na, lambda p: table[p], {})
    # a leading or trailing symbolic axis carried along unchanged, the rest all units
    raise Unsupported('reshape %s -> %s' % (tuple(old), tuple(shape)))


def broadcast_to(a, shape):
    a = asarr(a)
    z = Arr([tuple(dim_of_size(s)) for s in to_shape(shape)], {})
    return out(ufunc2(lambda x, y: x + y, z, a))


# ------------------------------------------------------------------ indexing
class Ell:
    pass


def cut(parts, pos_te, a=None, ax=None):
    """Index of the part boundary at offset pos_te, or (i, inner) when it falls inside part i."""
    acc = ZERO
    for i, p in enumerate(parts):
        if core.equal(acc, pos_te):
            return i, None
        nxt = acc + part_size(p)
        d = pos_te - acc
        c = d.const()
        if p != 1 and c is not None and c > 0:
            return i, int(c)
        if p != 1 and c is None and not core.equal(nxt, pos_te):
            # inside a bulk part at a symbolic offset
            r = nxt - pos_te
            if p.uid in BULK and all(v > 0 for v in r.d.values()) and all(v > 0 for v in d.d.values()):
                return i, d
        acc = nxt
    if core.equal(acc, pos_te):
        return len(parts), None
    return None, None


def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    n = sum(1 for k in key if k is not None and k is not Ellipsis)
    if n > a.ndim:
        raise IndexError('too many indices for array')
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + (slice(None),) * (a.ndim - n) + key[i + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - n)
    return key


def as_index(k):
    if isinstance(k, Sc):
        c = k.t.const()
        if c is not None:
            return int(c)
        return k
    if isinstance(k, Arr) and k.ndim == 0:
        return as_index(Sc(k.entry()))
    return k


def prepare(a, key, write):
    """Refine a so that every slice/int boundary of key lies on part boundaries; returns (a, specs).
    spec per key item: ('new',), ('int', partpos), ('pt', point id), ('sl', lo, hi, step), ('list', positions)."""
    specs = []
    ax = 0
    for k in key:
        if k is None:
            specs.append(('new',))
            continue
        k = as_index(k)
        if isinstance(k, bool) or isinstance(k, (BArr, SymBool)):
            raise Unsupported('mask indexing')
        if isinstance(k, int):
            a, pos = locate(a, ax, k, write)
            specs.append(('int', pos))
        elif isinstance(k, Sc):
            pid = getattr_point(a, ax, k)
            if pid is None:
                a, pos = locate_sym(a, ax, k, write)
                specs.append(('int', pos))
            else:
                specs.append(('pt', pid))
        elif isinstance(k, slice):
            st = k.step
            if st is not None and not (isinstance(st, int) and st in (1, -1)):
                if not (isinstance(st, int) and all(p == 1 for p in a.axes[ax])):
                    raise Unsupported('slice step')
                rng = range(len(a.axes[ax]))[k]
                specs.append(('list', list(rng)))
                ax += 1
                continue
            if st == -1:
                if k.start is None and k.stop is None and all(p == 1 for p in a.axes[ax]):
                    specs.append(('list', list(reversed(range(len(a.axes[ax]))))))
                    ax += 1
                    continue
                raise Unsupported('reversed slice')
            a, lo = boundary(a, ax, k.start, 0, write)
            a, hi = boundary(a, ax, k.stop, None, write)
            # the second refinement may have moved the first boundary
            a, lo = boundary(a, ax, k.start, 0, write)
            specs.append(('sl', lo, max(lo, hi)))
        elif isinstance(k, (list, tuple, Arr)):
            if isinstance(k, Arr):
                if k.ndim != 1 or any(p != 1 for p in k.axes[0]):
                    raise Unsupported('array indexing')
                ks = [as_index(x) for x in k]
            else:
                ks = [as_index(x) for x in k]
            if not all(isinstance(x, int) and not isinstance(x, bool) for x in ks):
                raise Unsupported('array indexing')
            ps = []
            for x in ks:
                a, pos = locate(a, ax, x, write)
                ps.append(pos)
            if any(p != 1 for p in a.axes[ax]):
                raise Unsupported('array indexing on a symbolic axis')
            specs.append(('list', ps))
        else:
            raise Unsupported('index %r' % type(k))
        ax += 1
    return a, specs


def entry(a, i):
    """Entry i, known to exist, of a vector."""
    p = a.axes[0]
    if len(p) != 1 or p[0] == 1:
        return None
    return out(relabel_view(a, (), lambda q: (0,), {0: core.point(p[0], i)}).detached())


def getattr_point(a, ax, k):
    p = a.axes[ax]
    if len(p) == 1 and p[0] != 1:
        for pid, (d, s) in core.POINTS.items():
            if d is p[0] and core.equal(s, k.t):
                return pid
    return None


def stack_points(x, kh, n):
    """The array whose row i is x, for every position i of an axis of length n: x is written for the position kh."""
    d = dim_of_size(n)
    if len(d) != 1 or d[0] == 1:
        raise Unsupported('array of a sequence of unknown length')
    x = asarr(x)
    here = core.atom(kh)
    m = {q: q + 1 for q in range(x.ndim)}
    memo = {}
    on = {pid for pid, (e, s) in core.POINTS.items() if core.depends(s, kh.uid, memo)}
    row = {pid for pid in on if core.POINTS[pid][0] is d[0] and core.equal(core.POINTS[pid][1], here)}
    m.update({pid: 0 for pid in row})
    bl = {}
    for p, t in x.blocks.items():
        if t.d:
            if t.free() & (on - row) or any(core.head_depends(core.HEADS[u], kh.uid, memo) for u in t.atoms()):
                raise Unsupported('array of a sequence of unknown length')
            bl[(0,) + p] = t.rename(m)
    return Arr(((d[0],),) + x.axes, bl)


def locate(a, ax, k, write):
    parts = a.axes[ax]
    size = axis_size(parts)
    if isinstance(size, int):
        if k < -size or k >= size:
            raise IndexError('index %d is out of bounds for axis %d with size %d' % (k, ax, size))
    if k >= 0:
        i, inner = cut(parts, te(k))
        if i is not None and inner is None and i < len(parts) and parts[i] == 1:
            return a, i
        if i is not None and i < len(parts) and parts[i] != 1:
            a = split_at(a, ax, i, te(inner or 0), write, one=True)
            return locate(a, ax, k, False)
        raise Unsupported('index %d into a symbolic axis' % k)
    # negative: count units from the end
    j = len(parts)
    r = k
    while r < 0:
        j -= 1
        if j < 0 or parts[j] != 1:
            raise Unsupported('index %d into a symbolic axis' % k)
        r += 1
    return a, j


def locate_sym(a, ax, k, write):
    i, inner = cut(a.axes[ax], k.t)
    if i is None or inner is not None or i >= len(a.axes[ax]) or a.axes[ax][i] != 1:
        raise Unsupported('symbolic index')
    return a, i


def split_at(a, ax, i, inner, write, one=False):
    p = a.axes[ax][i]
    first = dim_of_size(Sc(inner)) if inner.d else []
    rest = p.size - inner
    mid = [1] if one else []
    if one:
        rest = rest - ONE
    last = dim_of_size(Sc(rest)) if rest.d else []
    b = refine(a, ax, i, first + mid + last)
    if write:
        a.axes = b.axes
        a._blocks = b._blocks
        if a._base is not None:
            raise Unsupported('split of a view')
        a._own += 1
        return a
    return b


def boundary(a, ax, x, default, write):
    parts = a.axes[ax]
    if x is None:
        return a, (0 if default == 0 else len(parts))
    x = as_index(x)
    size = axis_size(parts)
    if isinstance(x, int) and x < 0:
        if isinstance(size, int):
            x = max(0, size + x)
        else:
            x = Sc(size.t + x)
    if isinstance(x, int) and isinstance(size, int):
        x = min(x, size)
    t = te_of(x)
    i, inner = cut(parts, t)
    if i is None:
        raise Unsupported('slice boundary %s' % t)
    if inner is None:
        return a, i
    a = split_at(a, ax, i, te(inner), write)
    return boundary(a, ax, x, default, False)


def getitem(a, key):
    if isinstance(key, BArr):
        raise Unsupported('mask indexing')
    if isinstance(key, str):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`) are valid indices')
    key = norm_key(a, key)
    if sum(isinstance(k, (list, Arr)) for k in key) > 1:
        return fancy(a, key)
    b, specs = prepare(a, key, False)
    if b is not a and a._base is None:
        # remember the finer partition: the content is the same
        a.axes, a._blocks = b.axes, b._blocks
        b = a
    src = b
    na, build, idmap, pts = [], [], {}, {}
    ax = 0
    for sp in specs:
        if sp[0] == 'new':
            na.append((1,))
            build.append(None)
            continue
        if sp[0] == 'int':
            build.append(('fix', ax, sp[1]))
        elif sp[0] == 'pt':
            build.append(('fix', ax, 0))
            pts[ax] = sp[1]
        elif sp[0] == 'sl':
            na.append(src.axes[ax][sp[1]:sp[2]])
            build.append(('off', ax, sp[1]))
            idmap[ax] = len(na) - 1
        else:
            na.append(tuple(src.axes[ax][i] for i in sp[1]))
            build.append(('list', ax, sp[1]))
        ax += 1
    nd = src.ndim

    def posmap(p):
        q = [0] * nd
        j = 0
        for bd in build:
            if bd is None:
                j += 1
            elif bd[0] == 'fix':
                q[bd[1]] = bd[2]
            elif bd[0] == 'off':
                q[bd[1]] = p[j] + bd[2]
                j += 1
            else:
                q[bd[1]] = bd[2][p[j]]
                j += 1
        return tuple(q)
    idmap = {k: v for k, v in idmap.items() if k != v}
    idmap.update(pts)
    if any(bd and bd[0] == 'list' for bd in build):
        r = relabel_view(src, na, posmap, idmap).detached()
    else:
        r = relabel_view(src, na, posmap, idmap)
        if pts:
            r._put = None
    if src.kind != 'float':
        r.kind = src.kind
    return out(r) if not na else r


def fancy(a, key):
    ls = [k for k in key if isinstance(k, (list, Arr))]
    if len(ls) == len(key) == a.ndim:
        # np.ix_-style (column of indices, row of indices) or paired lists
        if all(isinstance(k, list) for k in key):
            xs = [getitem(a, tuple(int(k[i]) for k in key)) for i in range(len(key[0]))]
            return stack_list(xs)
        k0, k1 = [asarr(k) for k in key]
        if k0.ndim == 2 and k1.ndim == 2 and k0.axes[1] == (1,) and k1.axes[0] == (1,):
            rows = [as_index(x) for x in ravel(k0)]
            cols = [as_index(x) for x in ravel(k1)]
            return stack_list([stack_list([getitem(a, (r, c)) for c in cols]) for r in rows])
    raise Unsupported('fancy indexing')


def setitem(a, key, val):
    if isinstance(key, BArr):
        raise Unsupported('mask assignment')
    key = norm_key(a, key)
    a2, specs = prepare(a, key, True)
    if a2 is not a:
        a.axes, a._blocks = a2.axes, a2._blocks
        a._own += 1
    v = getitem(a, key)
    if not isinstance(v, Arr):
        # single entry
        pos, ids = [], {}
        for sp in specs:
            if sp[0] != 'int':
                raise Unsupported('assignment to a generic element')
            pos.append(sp[1])
        bl = dict(a.blocks)
        t = te_of(val) if not isinstance(val, (list, tuple)) else te_of(asarr(val))
        if t.d:
            bl[tuple(pos)] = t
        else:
            bl.pop(tuple(pos), None)
        a.assign(Arr(a.axes, bl))
        return
    if v._base is None or v._put is None:
        raise Unsupported('fancy assignment')
    r = conform(asarr(val), Arr(v.axes, {}))
    if r.axes != v.axes:
        raise Unsupported('assignment refines the target')
    v.assign(r)


# ------------------------------------------------------------------ contraction
def einsum_core(ops, labels, outl):
    """ops: arrays; labels: per array a list of label ids; outl: output labels.  Sums over the others."""
    ops = list(ops)
    guard = 0
    while True:
        guard += 1
        if guard > 80:
            raise Unsupported('einsum')
        parts = {}
        again = False
        for i, (o, ls) in enumerate(zip(ops, labels)):
            if len(ls) != o.ndim:
                raise ValueError('einstein sum subscripts string contains too many subscripts')
            for ax, l in enumerate(ls):
                p = o.axes[ax]
                if l not in parts or parts[l][0] == (1,):
                    parts[l] = (p, i, ax)
                elif p != parts[l][0] and p != (1,):
                    c = common(parts[l][0], p)
                    if c is None:
                        raise ValueError('operands could not be broadcast together (einsum/matmul) %s' % [x.shape for x in ops])
                    pi, pax = parts[l][1], parts[l][2]
                    if tuple(c) != ops[pi].axes[pax]:
                        ops[pi] = repartition(ops[pi], pax, c)
                    if tuple(c) != ops[i].axes[ax]:
                        ops[i] = repartition(ops[i], ax, c)
                    again = True
                    break
            if again:
                break
        if not again:
            break
    P = {l: v[0] for l, v in parts.items()}
    summed = [l for l in P if l not in outl]
    axes = [P[l] for l in outl]
    lab_id = {l: 100 + i for i, l in enumerate(P)}
    # renamed blocks per operand
    acc = {}
    tables = []
    for o, ls in zip(ops, labels):
        tab = []
        for p, t in o.blocks.items():
            if not t.d:
                continue
            asg = {}
            ok = True
            for ax, l in enumerate(ls):
                q = p[ax] if not (o.axes[ax] == (1,) and P[l] != (1,)) else None
                if q is not None:
                    if l in asg and asg[l] != q:
                        ok = False
                    asg[l] = q
            if not ok:
                continue
            tab.append((asg, t.rename({ax: lab_id[l] for ax, l in enumerate(ls)})))
        tables.append(tab)

    def rec(i, asg, t):
        if i == len(tables):
            free = [l for l in P if l not in asg]
            if free:
                for combo in itertools.product(*[range(len(P[l])) for l in free]):
                    rec2(dict(asg, **dict(zip(free, combo))), t)
            else:
                rec2(asg, t)
            return
        for a2, t2 in tables[i]:
            if all(asg.get(l, q) == q for l, q in a2.items()):
                m = dict(asg)
                m.update(a2)
                rec(i + 1, m, t2 if t is None else t * t2)

    def rec2(asg, t):
        for l in summed:
            p = P[l][asg[l]]
            if p != 1:
                t = t.contract(lab_id[l], p)
        if not t.d:
            return
        pos = tuple(asg[l] for l in outl)
        acc[pos] = acc.get(pos, ZERO) + t
    rec(0, {}, None)
    m = {lab_id[l]: i for i, l in enumerate(outl)}
    return out(Arr(axes, {p: t.rename(m) for p, t in acc.items() if t.d}))


def matmul(x, y):
    if not isinstance(x, (Arr, list, tuple)) or not isinstance(y, (Arr, list, tuple)):
        if isnum(x) or isnum(y):
            raise ValueError('matmul: Input operand does not have enough dimensions')
        return NotImplemented
    a, b = asarr(x), asarr(y)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    ka = a.axes[-1]
    kb = b.axes[-2] if b.ndim > 1 else b.axes[-1]
    if not same_size(axis_size(ka), axis_size(kb)):
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension (%s %s)' % (a.shape, b.shape))
    if a.ndim <= 2 and b.ndim <= 2:
        la = ['i', 'k'][2 - a.ndim:]
        lb = ['k', 'j'][:b.ndim]
        return einsum_core([a, b], [la, lb], [l for l in la + lb if l != 'k'])
    na, nb = max(a.ndim, 2) - 2, max(b.ndim, 2) - 2
    nbat = max(na, nb)
    bl = ['b%d' % i for i in range(nbat)]
    la = (bl[nbat - na:] + ['i', 'k']) if a.ndim > 1 else ['k']
    lb = (bl[nbat - nb:] + ['k', 'j']) if b.ndim > 1 else ['k']
    return einsum_core([a, b], [la, lb], bl + [l for l in ['i', 'j'] if l in la + lb])


def dot(x, y):
    a, b = asarr(x), asarr(y)
    if a.ndim == 0 or b.ndim == 0:
        return out(ufunc2(lambda p, q: p * q, a, b))
    ka, kb = a.axes[-1], b.axes[-2] if b.ndim > 1 else b.axes[-1]
    if not same_size(axis_size(ka), axis_size(kb)):
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    la = ['a%d' % i for i in range(a.ndim - 1)] + ['k']
    lb = ['b%d' % i for i in range(b.ndim)]
    lb[-2 if b.ndim > 1 else -1] = 'k'
    return einsum_core([a, b], [la, lb], [l for l in la if l != 'k'] + [l for l in lb if l != 'k'])


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum operand form')
    spec = spec.replace(' ', '')
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    if '->' in spec:
        ins, o = spec.split('->')
    else:
        ins = spec
        allc = ins.replace(',', '')
        o = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise ValueError('more operands provided to einstein sum function than specified in the subscripts string')
    return einsum_core([asarr(x) for x in ops], [list(i) for i in ins], list(o))


def reduce_sum(a, axis=None, keepdims=False):
    a = asarr(a)
    if axis is None:
        axs = list(range(a.ndim))
    else:
        axs = [x % a.ndim if -a.ndim <= x < a.ndim else bad_axis() for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    ls = ['l%d' % i for i in range(a.ndim)]
    r = einsum_core([a], [ls], [l for i, l in enumerate(ls) if i not in axs])
    if keepdims:
        r = add_axes(asarr(r), axs)
    return r


def bad_axis():
    raise ValueError('axis out of bounds')


def mean(a, axis=None, keepdims=False):
    a = asarr(a)
    s = reduce_sum(a, axis, keepdims)
    n = ONE
    axs = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    for i in axs:
        n = n * te_of(axis_size(a.axes[i]))
    if not n.d:
        raise Unsupported('mean of an empty array')
    return s / Sc(n)


def diag(a, k=0):
    a = asarr(a)
    if k:
        raise Unsupported('off-diagonal')
    if a.ndim == 1:
        parts = a.axes[0]
        bl = {}
        for i, p in enumerate(parts):
            t = a.blocks.get((i,), ZERO)
            if t.d:
                bl[(i, i)] = t if p == 1 else t * core.delta(p, 0, 1)
        return Arr((parts, parts), bl)
    if a.ndim != 2:
        raise ValueError('Input must be 1- or 2-d.')
    return einsum_core([a], [['i', 'i']], ['i'])


def trace(a):
    return einsum_core([asarr(a)], [['i', 'i']], [])


def roll(a, k, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim == 1:
            axis = 0
        else:
            raise Unsupported('flattened roll')
    if isinstance(axis, (tuple, list)) or not isinstance(k, int):
        k = as_index(k)
        if not isinstance(k, int):
            raise Unsupported('roll')
    axis %= a.ndim
    parts = a.axes[axis]
    n = len(parts)
    if all(p == 1 for p in parts):
        if not n:
            return a.detached()
        return Arr(a.axes, {p[:axis] + ((p[axis] + k) % n,) + p[axis + 1:]: t for p, t in a.blocks.items()})
    if n == 1:
        return Arr(a.axes, {p: t.rename({axis: core.shift(axis, -k)}) for p, t in a.blocks.items()})
    raise Unsupported('roll of a mixed axis')


def kron(x, y):
    a, b = asarr(x), asarr(y)
    if a.ndim != 2 or b.ndim != 2 or any(p != 1 for ax in a.axes for p in ax):
        raise Unsupported('kron')
    rows = []
    for i in range(len(a.axes[0])):
        rows.append(concatenate([b * a[i, j] for j in range(len(a.axes[1]))], 1))
    return concatenate(rows, 0)


def opaque_reduce(name, a, axis=None):
    """max/min/... of all entries, as an opaque scalar of the array."""
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported(name + ' along an axis')
    return Sc(opaque_of(name, a))


def opaque_of(name, a):
    """Opaque scalar function of a whole array."""
    bl = [(p, a.blocks.get(p, ZERO)) for p in positions(a.axes)]
    nd = a.ndim
    shape_key = tuple(tuple(1 if q == 1 else q.uid for q in ax) for ax in a.axes)
    args = tuple(t for _, t in bl)
    for t in args:
        if any(i >= nd for i in t.free()):
            raise Unsupported('opaque function of a parametrised array')
    for h in core._intern.get(('opaque', name, shape_key), []):
        if all(core.equal(x, y) for x, y in zip(h.args, args)):
            return TE({((h.uid, (), 1),): 1})
    h = core.new_head(name, 'opaque', (), False, args, axes=a.axes, poss=[p for p, _ in bl],
                      rebuild=lambda h, args, slots: opaque_of(h.name, Arr(h.meta['axes'], dict(zip(h.meta['poss'], args)))))
    core._intern.setdefault(('opaque', name, shape_key), []).append(h)
    return TE({((h.uid, (), 1),): 1})


# ------------------------------------------------------------------ matrices
def matrix_of(a):
    """Square matrix as the verifier's matrix: (TE, Dim) for one symbolic block, rows of TE for unit parts."""
    a = asarr(a)
    if a.ndim != 2:
        raise LinAlgError('%d-dimensional array given. Array must be two-dimensional' % a.ndim)
    if not same_size(axis_size(a.axes[0]), axis_size(a.axes[1])):
        raise LinAlgError('Last 2 dimensions of the array must be square')
    p = a.axes[0]
    if a.axes[1] != p:
        c = common(p, a.axes[1])
        a = repartition(a, 0, c) if tuple(c) != a.axes[0] else a
        a = repartition(a, 1, c) if tuple(c) != a.axes[1] else a
        p = a.axes[0]
    if len(p) == 1 and p[0] != 1:
        t = a.blocks.get((0, 0), ZERO)
        if t.free() - {0, 1}:
            raise Unsupported('parametrised matrix')
        return (t, p[0]), p
    if all(x == 1 for x in p):
        return tuple(tuple(a.blocks.get((i, j), ZERO) for j in range(len(p))) for i in range(len(p))), p
    # block diagonal over delta/const bulk parts may be re-joined: eye-like matrices
    raise Unsupported('matrix with a mixed partition')


class LinAlgError(Exception):
    pass


LinAlgError.__module__ = 'numpy.linalg'


class LinAlgWarning(RuntimeWarning):
    pass


def m_symmetric(m):
    if isinstance(m[0], TE):
        return core.is_symmetric(m[0])
    n = len(m)
    return all(core.equal(m[i][j], m[j][i]) for i in range(n) for j in range(i))


def is_pd(a):
    """SymBool/bool: the (symmetric) matrix a is positive definite."""
    m, p = matrix_of(a)
    if not isinstance(m[0], TE) and len(m) == 1:
        return rel(-m[0][0], '<')
    if isinstance(m[0], TE) and not m[0].d:
        return False
    return SymBool('pd', m)


def m_inverse(a):
    m, p = matrix_of(a)
    if isinstance(m[0], TE):
        return Arr((p, p), {(0, 0): core.inverse(m[0], m[1])})
    n = len(m)
    if n == 1:
        return Arr((p, p), {(0, 0): core.recip(m[0][0])})
    if all(not m[i][j].d for i in range(n) for j in range(n) if i != j):
        return Arr((p, p), {(i, i): core.recip(m[i][i]) for i in range(n)})
    if n == 2:
        det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
        r = core.recip(det)
        return Arr((p, p), {k: v for k, v in {(0, 0): m[1][1] * r, (0, 1): -m[0][1] * r, (1, 0): -m[1][0] * r, (1, 1): m[0][0] * r}.items() if v.d})
    sym = m_symmetric(m)
    return Arr((p, p), {(i, j): block_entry('invblk', m, *((min(i, j), max(i, j)) if sym else (i, j))) for i in range(n) for j in range(n)})


def block_entry(name, m, i, j):
    n = len(m)
    args = tuple(m[r][c] for r in range(n) for c in range(n))
    key = ('blk', name, n, i, j)
    for h in core._intern.get(key, []):
        if all(core.equal(x, y) for x, y in zip(h.args, args)):
            return TE({((h.uid, (), 1),): 1})
    h = core.new_head('%s%d%d' % (name, i, j), 'blk', (), False, args, blk=(name, n, i, j))
    core._intern.setdefault(key, []).append(h)
    return TE({((h.uid, (), 1),): 1})


def m_cholesky(a, lower=True):
    """Cholesky factor; raises LinAlgError on paths where a is not positive definite."""
    a = asarr(a)
    m, p = matrix_of(a)
    if not m_symmetric(m):
        raise Unsupported('cholesky of a matrix not shown symmetric')
    if not is_pd(a):
        raise LinAlgError('Matrix is not positive definite')
    if isinstance(m[0], TE):
        L = Arr((p, p), {(0, 0): core.cholesky(m[0], m[1])})
    else:
        n = len(m)
        if n == 1:
            L = Arr((p, p), {(0, 0): core.sqrt(m[0][0])})
        elif all(not m[i][j].d for i in range(n) for j in range(n) if i != j):
            L = Arr((p, p), {(i, i): core.sqrt(m[i][i]) for i in range(n)})
        elif n <= 3:
            ents = {}
            for j in range(n):
                s = m[j][j]
                for k in range(j):
                    s = s - ents[(j, k)] * ents[(j, k)]
                ents[(j, j)] = core.sqrt(s)
                for i in range(j + 1, n):
                    s = m[i][j]
                    for k in range(j):
                        s = s - ents[(i, k)] * ents[(j, k)]
                    ents[(i, j)] = s * core.recip(ents[(j, j)])
            L = Arr((p, p), {k: v for k, v in ents.items() if v.d})
        else:
            L = Arr((p, p), {(i, j): block_entry('cholblk', m, i, j) for i in range(n) for j in range(i + 1)})
    return L if lower else transpose(L).detached()


def require_nonsingular(a, pos=False):
    """Raises LinAlgError on paths where a is singular (pos: not positive definite)."""
    m, p = matrix_of(a)
    if pos:
        if not m_symmetric(m):
            raise Unsupported('assume_a="pos" with a matrix not shown symmetric')
        if not is_pd(a):
            raise LinAlgError('Matrix is not positive definite')
        return
    if isinstance(m[0], TE):
        t = m[0]
        if not t.d:
            raise LinAlgError('Singular matrix')
        if len(t.d) == 1:
            (k, v), = t.d.items()
            idx = [f for f in k if f[1]]
            if len(idx) == 1 and (HEADS[idx[0][0]].kind in ('delta', 'inv', 'chol', 'cholinv') or HEADS[idx[0][0]].meta.get('nonsing')):
                return
        if SymBool('sing', m):
            raise LinAlgError('Singular matrix')
        return
    if len(m) == 1:
        r = rel(m[0][0], '==')
        if r:
            raise LinAlgError('Singular matrix')
        return
    if len(m) == 2:
        if rel(m[0][0] * m[1][1] - m[0][1] * m[1][0], '=='):
            raise LinAlgError('Singular matrix')
        return
    if SymBool('sing', m):
        raise LinAlgError('Singular matrix')


def solve(a, b, pos=False, transposed=False):
    a, b = asarr(a), asarr(b)
    if transposed:
        a = transpose(a)
    require_nonsingular(a, pos)
    inv = m_inverse(a)
    if b.ndim == 0:
        raise LinAlgError('0-dimensional array given')
    return matmul(inv, b)


# ------------------------------------------------------------------ comparison of arrays
def arrays_equal(x, y):
    """Entry by entry provable equality of two arrays of the same shape.  Returns (ok, list of differing blocks)."""
    a, b = asarr(x), asarr(y)
    if a.ndim != b.ndim:
        return None, 'shape %s vs %s' % (a.shape, b.shape)
    for p, q in zip(a.shape, b.shape):
        if not same_size(p, q):
            return None, 'shape %s vs %s' % (a.shape, b.shape)
    a, b, axes = align(a, b)
    bad = []
    n = len(axes)
    for pos in positions(axes):
        d = pick(a, n, pos) - pick(b, n, pos)
        if d.d and not core.is_zero(d):
            bad.append((pos, d))
    return (not bad), (bad, axes)
