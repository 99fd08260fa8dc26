"""The loop rule: loops over sequences of unknown length are cut by an inductive invariant.

A `for` over a symbolic sequence runs its first iteration as it is.  After it, every variable, attribute, list element
and module variable the loop can reach is a slot; each slot gets a template over the iteration count tau (the value
after tau iterations):
    constant            the same in every iteration
    affine              base + (tau-1) * step, for numbers
    recursion           component of a recursion the contract registered (c.recursion)
    element             what iteration tau wrote, as a term over the elements of the sequences
    unknown             the slot is unknown; using it undoes the proof (the obligation is then only decided with a bound)
Two paths follow.  `step`: the slots are replaced by their templates at an arbitrary k >= 1, the body runs once on
element k, and the slots must equal the templates at k+1 (the invariant is preserved: an obligation of its own).
`exit`: the slots are the templates at n.  Templates that are not preserved are weakened and the run starts over, so
what remains is proved by induction on the iteration count; nothing is assumed about the body beyond what ran.
Lists that grow are prefixes of known content followed by 'the items iteration j appended' for j < tau."""
import ast
import builtins
import functools
import types
from fractions import Fraction
from . import core, arr, shim, sym as S
from .core import TE, te, ZERO, ONE, HEADS, Unsupported, EngineSignal, Infeasible, EndPath, Restart
from .arr import Arr, Sc
from .sym import SymBool, Engine


def con(t):
    c = t.const() if isinstance(t, TE) else te(t).const()
    return None if c is None else int(c)


def num(t):
    """TE -> int or Sc."""
    c = con(t)
    return c if c is not None else Sc(t, True)


def ix(i):
    """Index value -> TE."""
    if isinstance(i, TE):
        return i
    if isinstance(i, bool) or not (isinstance(i, (int, Fraction)) or (isinstance(i, Sc))):
        if isinstance(i, Arr) and i.ndim == 0:
            return i.entry()
        raise TypeError('indices must be integers or slices')
    return arr.te_of(i)


def yes(b):
    """Decide a condition (a fork when it is open)."""
    return bool(b) if isinstance(b, (bool, SymBool)) else bool(b)


def norm_index(i):
    """The constant an index is known to equal on this path, if any."""
    if i.const() is None and Engine._stack:
        e = Engine.cur()
        for c in (0, 1):
            if e.known_or_implied(S.rel(i - c, '==')) is True:
                return te(c)
    return i


def equalities(e):
    """Linear equalities between indices this path has decided, solved for one index: [(uid, term)]."""
    out = []
    for f, v in e.facts:
        if v and f.kind == 'rel' and f.a[1] == '==':
            t = f.a[0]
            for u, w in out:
                t = core.subst(t, u, lambda s, w=w: w)
            if len(t.d) < 2 or any(len(k) > 1 or k[0][1] or k[0][2] != 1 or not HEADS[k[0][0]].meta.get('isint') for k in t.d if k):
                continue
            us = [(k[0][0], c) for k, c in t.d.items() if k and abs(c) == 1]
            if us:
                u, c = max(us)
                out.append((u, (TE({((u, (), 1),): c}) - t).scale(Fraction(1) / c)))
    return out


def modulo(eqs, v):
    for u, w in eqs:
        f = lambda s, w=w: w
        if isinstance(v, Arr):
            v = Arr(v.axes, {p: core.subst(x, u, f) for p, x in v.blocks.items()})
        else:
            v = arr.mk(core.subst(arr.te_of(v), u, f), isinstance(v, Sc) and v.isint)
    return v


def same_on_path(a, b):
    """Equal, given the equalities between indices on this path."""
    if same_num(a, b):
        return True
    eqs = equalities(Engine.cur()) if Engine._stack else []
    return bool(eqs) and isinstance(a, Arr) == isinstance(b, Arr) and same_num(modulo(eqs, a), modulo(eqs, b))


# ------------------------------------------------------------------ sequences
ROWS = [0]        # arrays being stacked from sequences, one inside another


class SymSeq:
    """A read-only sequence: n elements, element i is get(i)."""

    def __init__(self, n, get, name='', plain=False):
        self.n, self._get, self.name, self.plain = te(n), get, name, plain
        self.memo = {}
        self.serial = None
        self.made = False        # elements made by the code for this sequence: objects with an identity of their own
        self.effects = []        # what loops did to elements that were not made yet

    def at(self, i):
        i = norm_index(i)
        if self.made:
            v = self.own(i)
            if v is not None:
                return v
        k = frozenset(i.d.items())
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = (self._get(i),)
            ctx = getattr(Engine.cur(), 'ctx', None) if Engine._stack else None
            if ctx is not None and not self.plain:
                ctx.handed.append((v[0], contents(v[0])))
        return v[0]

    def own(self, i):
        """Element i of a sequence whose elements are objects the code made, one per position."""
        ctx = Engine.cur().ctx
        k = frozenset(i.d.items())
        if k in self.memo:
            return self.memo[k][0]
        for j, v in [(r[1], r[2]) for r in ctx.elements.values() if r[0] is self]:
            if yes(S.rel(i - j, '==')):
                return v
        v = self._get(i)
        if not isinstance(getattr(v, '__dict__', None), dict) or type(v).__module__ not in ctx.loader.mods:
            self.made = False
            return None
        if any(r[0] is v for r in ctx.handed):
            self.made = False          # an object of a given sequence, not one made here
            return None
        if self._get(i) is v or id(v) in ctx.elements:
            raise Unsupported('the same object at several positions of a sequence of unknown length')
        self.memo[k] = (v,)
        ctx.elements[id(v)] = (self, i, v)
        for eff in self.effects:
            eff.late(v, i)
        ctx.handed.append((v, contents(v)))
        return v

    def epv_len(self):
        return num(self.n)

    def __len__(self):
        c = con(self.n)
        if c is None:
            raise Unsupported('len() of a sequence of unknown length inside a library')
        return c

    def __bool__(self):
        return not yes(S.rel(self.n, '=='))

    def __iter__(self):
        c = con(self.n)
        if c is None:
            raise Unsupported('iteration over a sequence of unknown length inside a library')
        return iter([self.at(te(i)) for i in range(c)])

    def __reversed__(self):
        return SymIter(self.rev())

    def rev(self):
        return SymSeq(self.n, lambda i: self.at(self.n - 1 - i), plain=True)

    def part(self, a, n):
        return SymSeq(n, lambda i: self.at(i + a), plain=True)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        i = ix(i)
        i = norm_index(i)
        c = con(i)
        if c is not None and c < 0:
            i = self.n + i
        elif c is None and yes(S.rel(i, '<')):
            i = self.n + i
        if not yes(S.rel(i - self.n, '<')) or yes(S.rel(i, '<')):
            raise IndexError('list index out of range')
        return self.at(i)

    def slice(self, s):
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                return self.rev()
            raise Unsupported('slice with a step')

        def clamp(v, d):
            if v is None:
                return d
            v = ix(v)
            c = con(v)
            if (c is not None and c < 0) or (c is None and yes(S.rel(v, '<'))):
                v = self.n + v
                if yes(S.rel(v, '<')):
                    return ZERO
                return v
            if yes(S.rel(v - self.n, '<')):
                return v
            return self.n
        a, b = clamp(s.start, ZERO), clamp(s.stop, self.n)
        if yes(S.rel(b - a, '<')):
            return SymSeq(ZERO, None)
        return self.part(a, b - a)

    def __add__(self, o):
        return concat([self, o])

    def __radd__(self, o):
        return concat([o, self])

    def copy(self):
        return TList.of([('seq', self)])

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s of a sequence of unknown length' % k)

    def epv_asarr(self):
        if con(self.n) is not None:
            return arr.stack_list(list(self))
        eng = Engine.cur()
        if not yes(S.rel(-self.n, '<')):
            raise Unsupported('array of an empty sequence')
        kh = shim.fresh_head('c@row%d' % ROWS[0], (), input=True, isint=True, index=True, lo=Fraction(0), nonneg=True)
        facts = list(eng.facts)
        eng.assume(S.rel(core.atom(kh) - self.n, '<'))
        ROWS[0] += 1
        try:
            x = arr.asarr(self.at(core.atom(kh)))
        finally:
            ROWS[0] -= 1
        eng.facts = facts
        return arr.stack_points(x, kh, self.n)


def concat(xs):
    segs = []
    for x in xs:
        if isinstance(x, TList) and x.segs is not None:
            segs += x.segs
        elif isinstance(x, SymSeq):
            segs.append(('seq', x))
        elif isinstance(x, (list, tuple)):
            segs.append(('items', list(x)))
        else:
            raise TypeError('can only concatenate list')
    return TList.of(segs)


def view(x):
    """SymSeq over anything with a length the engine can talk about, or None."""
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, TList) and x.segs is not None:
        return seg_view(x.segs)
    if isinstance(x, SymIter):
        return x.rest()
    return None


def as_view(x):
    v = view(x)
    if v is not None:
        return v
    if isinstance(x, Arr):
        if x.ndim and not isinstance(x.shape[0], int):
            raise Unsupported('iteration over an array axis of unknown length')
        x = list(x)
    if not isinstance(x, (list, tuple)):
        x = list(x)
    return SymSeq(te(len(x)), lambda i: x[pick_const(i, len(x))], plain=True)


def pick_const(i, n):
    c = con(i)
    if c is not None:
        return c
    for c in range(n - 1):
        if yes(S.rel(i - c, '==')):
            return c
    yes(S.rel(i - n + 1, '=='))
    return n - 1


def seg_len(s):
    if s[0] == 'items':
        return te(len(s[1]))
    if s[0] == 'seq':
        return s[1].n
    return s[1] * s[2]


def seg_get(s, i):
    if s[0] == 'items':
        return s[1][pick_const(i, len(s[1]))]
    if s[0] == 'seq':
        return s[1].at(i)
    # ('grow', n, r, get(j, item), back): r items per iteration
    _, n, r, get, back = s
    if not back:
        i = n * r - 1 - i
    if r == 1:
        return get(i, 0)
    c = i.d.get((), 0)
    q = (i - c).scale(Fraction(1, r))
    if any(Fraction(v).denominator != 1 for v in q.d.values()) or Fraction(c).denominator != 1:
        raise Unsupported('position inside a list that grows by several items')
    return get(q + int(c) // r, int(c) % r)


def seg_view(segs):
    segs = [s for s in segs if con(seg_len(s)) != 0]
    if len(segs) == 1 and segs[0][0] == 'seq':
        return segs[0][1]
    tot = ZERO
    for s in segs:
        tot = tot + seg_len(s)

    def get(i):
        c = con(i)
        rest = i
        for q, s in enumerate(segs):
            n = seg_len(s)
            if q == len(segs) - 1:
                return seg_get(s, rest)
            m = con(n)
            if m is not None and con(rest) is None:
                for b in range(m):
                    if yes(S.rel(rest - b, '==')):
                        return seg_get(s, te(b))
            elif yes(S.rel(rest - n, '<')):
                return seg_get(s, rest)
            rest = rest - n
        raise IndexError('list index out of range')
    return SymSeq(tot, get, plain=True)


class SymIter:
    """Iterator over a SymSeq."""

    def __init__(self, seq, pos=ZERO):
        self.seq, self.pos = seq, pos

    def rest(self):
        return self.seq if not self.pos.d else self.seq.part(self.pos, self.seq.n - self.pos)

    def __iter__(self):
        return self

    def __next__(self):
        if not yes(S.rel(self.pos - self.seq.n, '<')):
            raise StopIteration
        v = self.seq.at(self.pos)
        self.pos = self.pos + 1
        return v

    def take(self):
        r = self.rest()
        self.pos = self.seq.n
        return r


# ------------------------------------------------------------------ lists
class TList(list):
    """A list of the code under verification.  segs is None: an ordinary list; otherwise its content in segments."""
    segs = None

    @classmethod
    def of(cls, segs):
        r = cls()
        r.hold(segs)
        return r

    def hold(self, segs):
        out = []
        for s in segs:
            if s[0] == 'items':
                if not s[1]:
                    continue
                if out and out[-1][0] == 'items':
                    out[-1] = ('items', out[-1][1] + list(s[1]))
                    continue
                s = ('items', list(s[1]))
            elif con(seg_len(s)) == 0:
                continue
            out.append(s)
        if all(s[0] == 'items' or con(seg_len(s)) is not None for s in out):
            xs = []
            for s in out:
                xs += s[1] if s[0] == 'items' else [seg_get(s, te(i)) for i in range(con(seg_len(s)))]
            self.segs = None
            list.__init__(self, xs)
            return
        self.segs = out
        list.clear(self)
        list.append(self, POISON)

    def epv_len(self):
        if self.segs is None:
            return list.__len__(self)
        return seg_view(self.segs).epv_len()

    def append(self, x):
        if self.segs is None:
            return list.append(self, x)
        self.hold(self.segs + [('items', [x])])

    def extend(self, xs):
        v = view(xs)
        if self.segs is None and v is None:
            return list.extend(self, xs)
        self.hold((self.segs if self.segs is not None else [('items', list(self))])
                  + ([('seq', v)] if v is not None else [('items', list(xs))]))

    def insert(self, i, x):
        if self.segs is None:
            return list.insert(self, i, x)
        if i != 0:
            raise Unsupported('insert into a list of unknown length')
        self.hold([('items', [x])] + self.segs)

    def pop(self, i=-1):
        if self.segs is None:
            return list.pop(self, i)
        s = self.segs[-1 if i == -1 else 0]
        if i not in (-1, 0):
            raise Unsupported('pop from a list of unknown length')
        if s[0] == 'items':
            xs = list(s[1])
            v = xs.pop(i)
            self.hold(self.segs[:-1] + [('items', xs)] if i == -1 else [('items', xs)] + self.segs[1:])
            return v
        raise Unsupported('pop from a list of unknown length')

    def __getitem__(self, i):
        if self.segs is None:
            if isinstance(i, slice):
                if any(isinstance(q, Sc) for q in (i.start, i.stop, i.step)):
                    return TList.of([('seq', as_view(self).slice(i))])
                return TList(list.__getitem__(self, i))
            if isinstance(i, Sc) and con(i.t) is None:
                return as_view(self)[i]
            return list.__getitem__(self, i)
        r = seg_view(self.segs)[i]
        if isinstance(i, slice):
            return TList.of([('seq', r)])
        return r

    def __setitem__(self, i, x):
        if self.segs is None:
            return list.__setitem__(self, i, x)
        raise Unsupported('assignment into a list of unknown length')

    def __delitem__(self, i):
        if self.segs is None:
            return list.__delitem__(self, i)
        raise Unsupported('deletion from a list of unknown length')

    def __iter__(self):
        if self.segs is None:
            return list.__iter__(self)
        return iter(seg_view(self.segs))

    def __reversed__(self):
        if self.segs is None:
            return list.__reversed__(self)
        return SymIter(seg_view(self.segs).rev())

    def __len__(self):
        if self.segs is None:
            return list.__len__(self)
        return len(seg_view(self.segs))

    def __bool__(self):
        if self.segs is None:
            return list.__len__(self) > 0
        return bool(seg_view(self.segs))

    def __add__(self, o):
        if self.segs is None and view(o) is None:
            r = list.__add__(self, o)
            return TList(r) if r is not NotImplemented else r
        return concat([self, o])

    def __radd__(self, o):
        return concat([o, self])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        if self.segs is None and not (isinstance(k, Sc) and con(k.t) is None):
            return TList(list.__mul__(self, int(k) if isinstance(k, Sc) else k))
        if self.segs is None and list.__len__(self) == 1:
            x = list.__getitem__(self, 0)
            return TList.of([('seq', SymSeq(ix(k), lambda i: x))])
        raise Unsupported('repetition of a list of unknown length')
    __rmul__ = __mul__

    def __eq__(self, o):
        if self.segs is None and not (isinstance(o, TList) and o.segs is not None):
            return list.__eq__(self, o)
        if self is o:
            return True
        raise Unsupported('comparison of lists of unknown length')

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def copy(self):
        if self.segs is None:
            return TList(list.copy(self))
        return TList.of(list(self.segs))

    def reverse(self):
        if self.segs is None:
            return list.reverse(self)
        v = seg_view(self.segs)
        self.hold([('seq', v.rev())])

    def clear(self):
        self.segs = None
        list.clear(self)

    def __contains__(self, x):
        if self.segs is None:
            return list.__contains__(self, x)
        raise Unsupported('membership in a list of unknown length')

    def epv_asarr(self):
        if self.segs is None:
            return arr.stack_list(list(self))
        if len(self.segs) == 1 and self.segs[0][0] == 'seq':
            return self.segs[0][1].epv_asarr()
        if len(self.segs) == 2 and self.segs[0][0] == 'items' and self.segs[1][0] == 'grow':
            _, n, r, get, back = self.segs[1]
            first = self.segs[0][1]
            # the first iteration, kept apart, is an instance of the generic one
            if r == 1 and back and len(first) == 1 and isnum(first[0]) and same_num(first[0], get(te(-1), 0)):
                return SymSeq(n + 1, lambda i: get(i - 1, 0), plain=True).epv_asarr()
        raise Unsupported('array of a list of unknown length')

    def index(self, *a):
        if self.segs is None:
            return list.index(self, *a)
        raise Unsupported('index in a list of unknown length')

    def count(self, *a):
        if self.segs is None:
            return list.count(self, *a)
        raise Unsupported('count in a list of unknown length')

    def remove(self, *a):
        if self.segs is None:
            return list.remove(self, *a)
        raise Unsupported('remove from a list of unknown length')

    def sort(self, *a, **k):
        if self.segs is None:
            return list.sort(self, *a, **k)
        raise Unsupported('sort a list of unknown length')

    def __reduce__(self):
        return (list, (list(self),))


# ------------------------------------------------------------------ unknown values
class Poison:
    """A value the loop rule knows nothing about; any use undoes the symbolic run (not the property)."""
    __slots__ = ('key', 'learn')
    __array_ufunc__ = None

    def __init__(self, key=None, learn=None):
        object.__setattr__(self, 'key', key)
        object.__setattr__(self, 'learn', learn)


def poisoned(self, *a, **k):
    f = object.__getattribute__(self, 'learn')
    if f is not None:
        f()
    key = object.__getattribute__(self, 'key')
    raise Unsupported('no invariant for %s' % (key[1:] if key else 'a list of unknown length',))


for _n in ('getattribute', 'setattr', 'call', 'bool', 'len', 'iter', 'next', 'getitem', 'setitem', 'eq', 'ne', 'lt', 'le', 'gt', 'ge',
           'hash', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'matmul', 'rmatmul', 'pow', 'rpow', 'neg', 'pos',
           'abs', 'float', 'int', 'index', 'str', 'format', 'contains', 'enter', 'mod', 'rmod', 'floordiv', 'rfloordiv',
           'iadd', 'isub', 'imul', 'itruediv', 'imatmul', 'and', 'or', 'invert', 'reversed', 'round'):
    setattr(Poison, '__%s__' % _n, poisoned)
Poison.__repr__ = lambda self: '<unknown>'
POISON = Poison()


def is_poison(v):
    return type(v) is Poison


# ------------------------------------------------------------------ what a loop can reach
class Missing:
    pass


MISSING = Missing()
ATOMS = (type(None), str, bool, bytes, type, types.ModuleType, types.BuiltinFunctionType, EngineSignal)


def isnum(v):
    return not is_poison(v) and ((isinstance(v, (int, float, Fraction, Sc)) and not isinstance(v, bool)) or isinstance(v, Arr))


def element(v):
    """(sequence, index, object) when v is an element the code made for a sequence of unknown length."""
    if is_poison(v) or not Engine._stack or not isinstance(getattr(v, "__dict__", None), dict):
        return None
    return getattr(getattr(Engine.cur(), 'ctx', None), 'elements', {}).get(id(v))


def children(v, top=False):
    """[(key, child, setter or None)] of a compound value; None when v is not looked into."""
    if not top and element(v) is not None:
        return None
    if v is None or is_poison(v) or isinstance(v, ATOMS) or isnum(v) or isinstance(v, (SymSeq, SymIter, SymBool, TE)):
        return None
    if isinstance(v, tuple):
        return [(i, x, None) for i, x in enumerate(v)]
    if isinstance(v, TList):
        if v.segs is not None:
            out = []
            for q, s in enumerate(v.segs):
                if s[0] == 'items':
                    out += [((q, i), x, functools.partial(s[1].__setitem__, i)) for i, x in enumerate(s[1])]
            return out
        return [(i, x, functools.partial(list.__setitem__, v, i)) for i, x in enumerate(list.__iter__(v))]
    if isinstance(v, list):
        return [(i, x, functools.partial(v.__setitem__, i)) for i, x in enumerate(v)]
    if isinstance(v, dict):
        return [(k, v[k], functools.partial(v.__setitem__, k)) for k in v]
    if isinstance(v, functools.partial):
        return [('func', v.func, None), ('args', v.args, None), ('kw', v.keywords, None)]
    if isinstance(v, types.MethodType):
        return [('self', v.__self__, None), ('func', v.__func__, None)]
    if isinstance(v, types.FunctionType):
        if (v.__module__ or '').startswith('epv'):
            return None
        out = []
        for i, c in enumerate(v.__closure__ or ()):
            try:
                out.append((('cell', i), c.cell_contents, functools.partial(setattr, c, 'cell_contents')))
            except ValueError:
                pass
        for i, x in enumerate(v.__defaults__ or ()):
            out.append((('default', i), x, None))
        for k in sorted(v.__kwdefaults__ or ()):
            out.append((('default', k), v.__kwdefaults__[k], None))
        return out
    if isinstance(v, types.GeneratorType):
        return None
    m = type(v).__module__ or ''
    if m.startswith('epv') or m in ('builtins', 'functools', 'itertools', 'logging', 'numpy', 'collections'):
        if not isinstance(v, types.SimpleNamespace):
            return None
    d = getattr(v, '__dict__', None)
    if isinstance(d, dict):
        return [(k, d[k], functools.partial(d.__setitem__, k)) for k in sorted(d) if isinstance(k, str)]
    return None


def contents(v):
    """Shallow-to-deep record of a value, for checking that it was not modified."""
    out, seen, todo = [], set(), [v]
    if Engine._stack:
        seen |= {id(x) for x in getattr(getattr(Engine.cur(), 'ctx', None), 'roots', ())}
    while todo:
        x = todo.pop()
        if is_poison(x):
            continue
        if isinstance(x, Arr):
            out.append((x, 'arr', x.detached()))
            continue
        ch = children(x, x is v)
        if ch is None or id(x) in seen or isinstance(x, (types.FunctionType, types.MethodType, functools.partial)):
            continue
        seen.add(id(x))
        out.append((x, 'obj', {k: c for k, c, _ in ch}))
        todo += [c for _, c, _ in ch]
    return out


def unmodified(rec):
    for x, kind, was in rec:
        if kind == 'arr':
            if x.axes != was.axes:
                return False
            if x.blocks is not was._blocks and any(x.blocks.get(p, ZERO).d != was.blocks.get(p, ZERO).d for p in set(x.blocks) | set(was.blocks)):
                if not same_num(x, was):
                    return False
            continue
        now = {k: c for k, c, _ in children(x, True)}
        for k, c in now.items():
            if k not in was:
                return False
            w = was[k]
            if c is w or (w is None and isinstance(k, str) and k.startswith('_')):
                continue
            if isnum(c) and isnum(w) and same_num(c, w):
                continue
            if is_poison(w) or is_poison(c) or not (isinstance(c, (str, bool, int, float)) and c == w):
                return False
        if any(k not in now for k in was):
            return False
    return True


def same_num(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) != isinstance(b, Arr):
        return False
    if not isinstance(a, Arr):
        return core.equal(arr.te_of(a), arr.te_of(b))
    if len(a.axes) != len(b.axes):
        return False
    try:
        ok, _ = arr.arrays_equal(a, b)
    except (TypeError, ValueError):
        return False
    return ok is True


def holds_unknown(v):
    """Is an unknown value reachable from v?"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if is_poison(x):
            f = object.__getattribute__(x, 'learn')
            if f is not None:
                f()
            return True
        if id(x) in seen:
            continue
        seen.add(id(x))
        todo += [c for _, c, _ in children(x) or ()]
    return False


class Snap:
    """Contents of everything reachable from the roots."""

    def __init__(self, roots):
        self.kids = {}       # id -> (obj, [(key, child)])
        self.arrs = {}       # id -> (Arr, detached)
        self.roots = dict(roots)
        todo = [v for _, v in roots]
        while todo:
            v = todo.pop()
            if is_poison(v):
                continue
            if isinstance(v, Arr):
                if id(v) not in self.arrs:
                    self.arrs[id(v)] = (v, v.detached())
                continue
            if id(v) in self.kids:
                continue
            ch = children(v)
            if ch is None:
                continue
            segs = None
            if isinstance(v, list):     # noqa
                segs = [(s[0], list(s[1])) if s[0] == 'items' else s for s in v.segs] if isinstance(v, TList) and v.segs is not None else [('items', [c for _, c, _ in ch])]
            self.kids[id(v)] = (v, [(k, c) for k, c, _ in ch], segs)
            todo += [c for _, c, _ in ch]

    def arr_of(self, a):
        r = self.arrs.get(id(a))
        return r[1] if r is not None else a


def ident(a, b):
    if a is b:
        return True
    if is_poison(a) or is_poison(b):
        return False
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a.__self__ is b.__self__ and a.__func__ is b.__func__
    return isinstance(a, (str, bool, bytes)) and type(a) is type(b) and a == b


# ------------------------------------------------------------------ templates
class Tmpl:
    """Templates of one loop on one path."""

    def __init__(self, site, state, kvar, snap0, snap1, seqs):
        self.site, self.state = site, state
        self.k = kvar            # head of the index symbol of the step path
        self.s0, self.s1 = snap0, snap1
        self.ghosts = seqs
        self.memo = {}
        self.poisons = {}

    def level(self, p):
        return self.state.setdefault(p, [0, None])

    def build(self, p, v1, v0):
        kid = self.s1.kids.get(id(v1))
        if kid is not None and not isinstance(v1, tuple):
            n = self.memo.get(id(v1))
            if n is not None:
                return n
        n = Node(self, p, v1, v0)
        if kid is not None and not isinstance(v1, tuple):
            self.memo[id(v1)] = n
        n.init()
        return n


class Node:
    def __init__(self, T, p, v1, v0):
        self.T, self.p, self.v1, self.v0 = T, p, v1, v0
        self.kind = None
        self.inst = {}

    def init(self):
        T, v1, v0 = self.T, self.v1, self.v0
        if isnum(v1):
            self.kind = 'leaf'
            self.val = T.s1.arr_of(v1) if isinstance(v1, Arr) else v1
            w0 = T.s0.arr_of(v0) if isinstance(v0, Arr) else v0
            self.cands = candidates(T, self.val, w0)
            lv = T.level(self.p)
            if lv[0] >= len(self.cands):
                lv[0] = len(self.cands) - 1
            self.cand = self.cands[lv[0]]
            return
        kid = T.s1.kids.get(id(v1))
        if T.level(self.p)[0] >= 2:
            self.kind = 'poison'
            return
        e = element(v1)
        if e is not None and v0 is not v1 and con(e[1]) is not None:
            self.kind = 'elem'
            return
        if kid is None:
            self.kind = 'keep' if T.level(self.p)[0] == 0 else 'poison'
            return
        v0kid = T.s0.kids.get(id(v0)) if v0 is not MISSING else None
        if v0 is v1 and T.level(self.p)[0] == 0:
            self.kind = 'pers'
            if isinstance(v1, list):
                self.init_list(kid, v0kid)
                return
            k0 = dict(v0kid[1]) if v0kid else {}
            self.kids = {k: T.build(self.p + (k,), c, k0.get(k, MISSING)) for k, c in kid[1]}
            return
        if isinstance(v1, (types.FunctionType, types.MethodType, functools.partial, dict, list)) and not isinstance(v1, tuple) \
                and not (type(v1) is dict and all(isinstance(k, str) for k in v1) and v0 is not v1):
            self.kind = 'poison'
            if isinstance(v1, (types.MethodType,)) and ident(v1, v0):
                self.kind = 'keep'
            return
        self.kind = 'fresh'
        k0 = dict(v0kid[1]) if v0kid and type(v0) is type(v1) else {}
        self.kids = {k: T.build(self.p + (k,), c, k0.get(k, MISSING)) for k, c in kid[1]}

    def rename(self):
        """A value equal to W(c) of an opaque recursion is written as that symbol from here on."""
        if self.kind != 'leaf' or not isinstance(self.v1, Arr) or self.v1._base is not None:
            return
        for c in self.cands:
            if c.kind == 'ghost' and c.a[0].rec.opaque:
                v = c.a[0].at(te(1 + c.a[1]))
                if self.v1.rename_to(v):
                    self.val = v
                return

    # -- lists with an identity that stays
    def init_list(self, kid, kid0):
        T = self.T
        s0, s1 = kid0[2], kid[2]
        if any(s[0] == 'grow' for s in s0) and len(s0) > 3:
            raise Unsupported('list that grows in nested loops')
        r = grown(s0, s1)
        if r is None:
            raise Unsupported('a list changes in a way the loop rule does not follow')
        back, new = r
        self.back, self.base = back, s0
        self.items = []
        if not new:
            self.kids = {}
            k0 = dict(kid0[1])
            for k, c in kid[1]:
                self.kids[k] = T.build(self.p + (k,), c, k0.get(k, MISSING))
            self.grow = False
            return
        if not isinstance(self.v1, TList):
            raise Unsupported('a list built outside the code grows')
        self.grow = True
        self.kids = {}
        if not back and len(new) > 1:
            raise Unsupported('a list that grows by several items at its front')
        for q, x in enumerate(new):
            self.items.append(T.build(self.p + ('item', q), x, MISSING))
        k0 = dict(kid0[1])
        for k, c in kid0[1]:
            self.kids[k] = T.build(self.p + (k,), c, c)
        for n in self.kids.values():
            if n.kind not in ('keep', 'pers', 'fresh', 'leaf'):
                raise Unsupported('an element of a growing list changes')

    # -- instantiation
    def value(self, tau, log):
        key = frozenset(tau.d.items())
        if self.kind == 'keep':
            return self.v1
        if self.kind == 'poison':
            return self.poison()
        if self.kind == 'elem':
            q, i, _ = element(self.v1)
            return q.at(i + tau - 1)
        if self.kind == 'leaf':
            v = self.cand.value(self, tau)
            if isinstance(self.v1, Arr) and self.v1 is self.v0 and not is_poison(v):
                if self.cand.kind == 'const':
                    return self.v1
                self.v1.assign(arr.asarr(v))
                return self.v1
            if not is_poison(v) and isinstance(v, Arr):
                v = v.detached()
                log.append((v, 'arr', v.detached()))
            return v
        if key in self.inst:
            return self.inst[key]
        if self.kind == 'pers':
            self.inst[key] = self.v1
            if isinstance(self.v1, list) and self.grow:
                items = self.items

                def get(j, q):
                    lg = []
                    v = items[q].value(j + 2, lg)
                    ctx = getattr(Engine.cur(), 'ctx', None)
                    if ctx is not None:
                        ctx.handed += [(r[0], [r]) for r in lg]
                    return v
                # iteration 0 is content; iterations 1 .. tau-1 are generic
                first = [('items', [n.v1 for n in items])]
                g = [('grow', tau - 1, len(items), get, self.back)]
                self.v1.hold(self.base + first + g if self.back else g + first + self.base)
                return self.v1
            for k, c, setter in children(self.v1):
                n = self.kids.get(k)
                if n is None:
                    continue
                v = n.value(tau, log)
                if v is not c:
                    if setter is None:
                        raise Unsupported('a part of an immutable value changes')
                    setter(v)
            return self.v1
        # fresh
        vals = {}
        if isinstance(self.v1, tuple):
            xs = [self.kids[i].value(tau, log) for i in range(len(self.v1))]
            v = self.v1._make(xs) if hasattr(self.v1, '_make') else tuple(xs)
            return v
        if type(self.v1) is dict:
            v = self.inst[key] = {}
            for k in self.v1:
                v[k] = self.kids[k].value(tau, log)
            log.append((v, 'obj', dict(v)))
            return v
        v = type(self.v1).__new__(type(self.v1))
        self.inst[key] = v
        for k, n in self.kids.items():
            v.__dict__[k] = n.value(tau, log)
        log.append((v, 'obj', dict(v.__dict__)))
        return v

    def poison(self):
        lv = self.T.level(self.p)

        def learn():
            if self.kind == 'leaf' and lv[0] < len(self.cands) - 1:
                lv[0] += 1
                raise Restart()
            if self.kind == 'leaf' and self.cand.kind == 'element' and lv[1] is None and self.T.bound:
                raise core.Defer()
        return Poison((self.T.site,) + self.p, learn)

    # -- the same template one iteration later
    def match(self, v2, tau, bad, seen):
        """Collect in bad the paths whose value v2 is not the template at tau."""
        if self.kind == 'poison':
            return
        if self.kind == 'keep':
            if not ident(self.v1, v2) and not (self.v1 is None and is_poison(v2)):
                bad.append(self)
            return
        if self.kind == 'elem':
            e, w = element(self.v1), element(v2)
            if w is None or w[0] is not e[0] or not same_index(w[1], e[1] + tau - 1):
                bad.append(self)
            return
        if self.kind == 'leaf':
            if is_poison(v2):
                if self.cand.kind != 'unknown':
                    bad.append(self)
                return
            if not isnum(v2):
                if v2 is None and isinstance(self.p[-1], str) and self.p[-1].startswith('_'):
                    return
                self.bad_none(v2)
                bad.append(self)
                return
            if isinstance(self.v1, Arr) and self.v1 is self.v0 and v2 is not self.v1:
                raise Unsupported('an array that is sometimes replaced and sometimes changed in place')
            if not self.cand.match(self, v2, tau):
                bad.append(self)
            return
        if is_poison(v2):
            bad.append(self)
            return
        if self.kind == 'pers':
            if v2 is not self.v1:
                bad.append(self)
                return
            if id(self) in seen:
                return
            seen.add(id(self))
            if isinstance(v2, list) and self.grow:
                self.match_list(v2, tau, bad, seen)
                return
            now = {k: c for k, c, _ in children(v2)}
            self.match_kids(now, tau, bad, seen)
            return
        # fresh
        if type(v2) is not type(self.v1):
            self.bad_none(v2)
            bad.append(self)
            return
        ch = children(v2)
        self.match_kids({k: c for k, c, _ in ch}, tau, bad, seen)

    def bad_none(self, v2):
        # an unknown value must not hide the difference between something and None
        if v2 is None or self.v1 is None:
            raise Unsupported('%s is None in some iterations only' % (self.p,))

    def match_kids(self, now, tau, bad, seen):
        for k, n in self.kids.items():
            if k not in now:
                raise Unsupported('a part of %s disappears' % (self.p,))
            c = now[k]
            if n.kind == 'keep' and n.v1 is None and c is not None and isinstance(k, str) and k.startswith('_'):
                continue                      # a lazily filled cache
            if c is None and n.v1 is not None and isinstance(k, str) and k.startswith('_'):
                continue
            n.match(c, tau, bad, seen)
        for k in now:
            if k not in self.kids:
                raise Unsupported('a part of %s appears in a later iteration' % (self.p,))

    def match_list(self, v2, tau, bad, seen):
        before = self.held
        now = v2.segs if v2.segs is not None else [('items', list(v2))]
        r = grown(before, now)
        if r is None or r[0] != self.back or len(r[1]) != len(self.items):
            raise Unsupported('a list does not grow by the same number of items in every iteration')
        for n, x in zip(self.items, r[1]):
            n.match(x, tau, bad, seen)

    def ambiguous(self):
        q = self.T.level(self.p)[0] + 1
        return self.kind == 'leaf' and self.cand.kind == 'ghost' and q < len(self.cands) and self.cands[q].kind == 'ghost'

    def weaken(self):
        lv = self.T.level(self.p)
        if self.kind == 'keep' and self.v1 is None:
            raise Unsupported('%s is None in some iterations only' % (self.p,))
        if self.kind == 'leaf':
            if lv[0] >= len(self.cands) - 1:
                raise Unsupported('no template for %s' % (self.p,))
            lv[0] += 1
        else:
            lv[0] = 1 if self.kind in ('pers', 'keep') and element(self.v1) is None and self.kind == 'pers' else 2


def seg_same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'items':
        return len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1]))
    return a is b or (a[0] == 'seq' and a[1] is b[1]) or (a[0] == 'grow' and a[3] is b[3] and core.equal(a[1], b[1]))


def grown(s0, s1):
    """(at the back?, new items) when the segments s1 are s0 with items added at one end."""
    if sum(len(s[1]) for s in s0 if s[0] == 'items') == sum(len(s[1]) for s in s1 if s[0] == 'items') and len(s0) == len(s1) \
            and all(seg_same(a, b) for a, b in zip(s0, s1)):
        return True, []
    if not s0 or (len(s0) == 1 and s0[0] == ('items', [])):
        s0 = []
        if all(s[0] == 'items' for s in s1):
            return True, [x for s in s1 for x in s[1]]
        return None
    for back in (True, False):
        a, b = list(s0), list(s1)
        if not back:
            a, b = a[::-1], b[::-1]
        # all but the last segment agree; the last one is extended or followed by items
        if len(b) < len(a):
            continue
        if not all(seg_same(x, y) for x, y in zip(a[:-1], b[:-1])):
            continue
        x, rest = a[-1], b[len(a) - 1:]
        y = rest[0]
        new = None
        if x[0] == 'items' and y[0] == 'items' and len(rest) == 1 and len(y[1]) >= len(x[1]):
            n = len(x[1])
            if back and all(p is q for p, q in zip(x[1], y[1])):
                new = y[1][n:]
            elif not back and all(p is q for p, q in zip(x[1], y[1][len(y[1]) - n:])):
                new = y[1][:len(y[1]) - n]
        elif seg_same(x, y) and len(rest) == 2 and rest[1][0] == 'items':
            new = rest[1][1]
        if new is not None:
            return back, list(new)
    return None


class Cand:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def value(self, node, tau):
        k = self.kind
        if k == 'const':
            return node.val
        if k == 'affine':
            base, step = self.a
            return arr.mk(base + (tau - 1) * step, isinstance(node.val, int) or (isinstance(node.val, Sc) and node.val.isint))
        if k == 'ghost':
            g, o = self.a
            return g.at(tau + o)
        if k == 'element':
            data = node.T.level(node.p)[1]
            if data is None:
                return node.poison()
            return subst_k(data, node.T.k, tau - 1)
        return node.poison()

    def match(self, node, v2, tau):
        k = self.kind
        if k == 'unknown':
            return True
        if k == 'ghost':
            g, o = self.a
            return same_on_path(v2, g.at(tau + o)) or any(same_on_path(v2, w) for w in g.unfold(tau + o))
        if k == 'element':
            data = node.T.level(node.p)[1]
            if data is None and con(tau) is not None:
                return True         # nothing is claimed yet; another path learns the term
            if data is None and any(u == node.T.k.uid or node.T.k.uid in w.atoms() for u, w in equalities(Engine.cur())):
                return True         # a path that fixes the position says nothing about the others
            if data is None:
                node.T.level(node.p)[1] = v2.detached() if isinstance(v2, Arr) else v2
                try:
                    ok = same_num(subst_k(node.T.level(node.p)[1], node.T.k, ZERO), node.val)
                except Unsupported:
                    ok = False
                if not ok:
                    node.T.level(node.p)[1] = None
                    return False
                raise Restart()
            return same_on_path(v2, self.value(node, tau))
        return same_num(v2, self.value(node, tau))


def subst_k(v, khead, t):
    f = lambda s: t
    if isinstance(v, Arr):
        return Arr(v.axes, {p: core.subst(x, khead.uid, f) for p, x in v.blocks.items()})
    return arr.mk(core.subst(arr.te_of(v), khead.uid, f), isinstance(v, Sc) and v.isint)


def candidates(T, v1, v0):
    out = []
    if v0 is not MISSING and isnum(v0):
        if same_num(v0, v1):
            out.append(Cand('const'))
        elif not isinstance(v1, Arr) and not isinstance(v0, Arr):
            out.append(Cand('affine', arr.te_of(v1), arr.te_of(v1) - arr.te_of(v0)))
    for g in T.ghosts:
        for o in (0, -1):
            if any(same_num(w, v1) for w in g.const(1 + o)):
                out.append(Cand('ghost', g, o))
    out.append(Cand('unknown'))
    out.append(Cand('element'))
    return out


# ------------------------------------------------------------------ the loop itself
class Plain:
    """A loop over something of known length."""
    sym = track = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def decided(b):
    return b if isinstance(b, bool) else Engine.cur().known_or_implied(b)


def same_index(a, b):
    return core.equal(a, b) or decided(S.rel(a - b, '==')) is True


class Effect:
    """What a loop wrote into the elements of a sequence: attribute a of element i by iteration i - o.  An element whose
    iteration did not run on this path has an unknown value there."""

    def __init__(self, seq, writes, ran, n, inside=None):
        self.seq, self.writes, self.ran, self.n, self.inside = seq, writes, ran, n, inside

    def late(self, v, i):
        for o, a in self.writes:
            j = i - o
            if self.inside is not None:
                if same_index(j, self.inside):
                    continue            # written by the current iteration: still the value from before the loop
            elif any(same_index(j, r) for r in self.ran):
                continue
            else:
                if decided(S.rel(j, '<')) is True or decided(S.rel(j - self.n, '<')) is False:
                    continue
            v.__dict__[a] = Poison(('element', a), lambda: None)


class Loop:
    sym = track = False

    def __init__(self, it, site, loc):
        eng = Engine.cur()
        self.eng, self.it = eng, it
        self.seq = it.take() if isinstance(it, SymIter) else view(it)
        self.ctx = getattr(eng, 'ctx', None)
        if self.ctx is None:
            raise Unsupported('loop of unknown length outside a contract')
        self.site = (site, tuple(eng.taken), tuple(sorted((k, str(v)) for k, v in eng.binds.items() if k[:2] not in ('k@', 'c@'))))
        eng.visited.add(self.site)
        eng.nloops += 1
        self.ordinal = eng.nloops
        self.loc0 = dict(loc)
        self.ended = False
        self.inst = {}
        self.tmp = None

    def roots(self, loc):
        out = [(('local', k), v) for k, v in sorted(loc.items()) if not k.startswith('_epv')]
        for name in sorted(self.ctx.loader.mods):
            m = self.ctx.loader.mods[name]
            for k, v in sorted(vars(m).items()):
                if k.startswith('__') or k in out:
                    continue
                if isinstance(v, type) and v.__module__ == name:
                    out += [(('class', name, k, a), x) for a, x in sorted(vars(v).items())
                            if not a.startswith('__') and not isinstance(x, (staticmethod, classmethod, property))]
                elif not isinstance(v, (types.ModuleType, type)):
                    out.append((('global', name, k), v))
        out += [(('contract', i), v) for i, v in enumerate(self.ctx.roots)]
        return out

    def elements(self):
        return [(q, i, v, dict(v.__dict__)) for q, i, v in self.ctx.elements.values()]

    def refresh(self):
        self.ctx.handed = [(v, contents(v) if element(v) is not None else rec) for v, rec in self.ctx.handed]

    def writes(self, was, k, W):
        """Record which attributes of which element (relative to k) iteration k wrote; True when W grew."""
        grew = False
        old = {id(v): d for _, _, v, d in was}
        for q, i, v in self.ctx.elements.values():
            d = old.get(id(v))
            if d is None:
                d = {k_: c for r in self.ctx.handed if r[0] is v for x, kind, w in r[1] if x is v for k_, c in w.items()}
            for a in sorted(set(d) | set(v.__dict__)):
                x, y = d.get(a, MISSING), v.__dict__.get(a, MISSING)
                if x is y or (x is None and a.startswith('_')):
                    continue
                if holds_unknown(y):
                    raise Unsupported('an iteration stores what another one wrote')
                o = con(i - k)
                if o is None:
                    o = next((q for q in (0, 1, -1) if decided(S.rel(i - k - q, '==')) is True), None)
                if o is None:
                    raise Unsupported('an element at a fixed position is written in a loop: %s by %s' % (i, k))
                if not any(p == q.serial and b == a for p, _, b in W):
                    W.append((q.serial, o, a))
                    grew = True
                elif not any(p == q.serial and b == a and c == o for p, c, b in W):
                    raise Unsupported('several iterations write the same attribute of an element')
        return grew

    def events(self):
        return sum(1 for e in shim.World.cur.events if e[0] not in ('print',))

    def end(self, loc):
        self.loc = dict(loc)
        self.ended = True

    def has(self, name):
        return name in self.loc

    def load(self, name):
        return self.inst[('local', name)]

    def place(self, T, nodes, tau, log):
        """Give every slot its value after tau iterations."""
        for n in all_nodes(nodes.values()):
            n.inst.clear()
        for key, node in nodes.items():
            v = node.value(tau, log)
            self.inst[key] = v
            if key[0] == 'global' and v is not vars(self.ctx.loader.mods[key[1]]).get(key[2]):
                vars(self.ctx.loader.mods[key[1]])[key[2]] = v
            elif key[0] == 'class' and v is not vars(vars(self.ctx.loader.mods[key[1]])[key[2]]).get(key[3]):
                setattr(vars(self.ctx.loader.mods[key[1]])[key[2]], key[3], v)
            elif key[0] == 'contract' and v is not node.v1:
                raise Unsupported('contract state is replaced in a loop')

    def name_arrays(self, i):
        """After iteration i: arrays equal to W(i) or W(i+1) of an opaque recursion are written as that symbol."""
        for a, _ in list(Snap(self.roots(self.loc)).arrs.values()):
            if a._base is None and sum(len(t.d) for t in a.blocks.values()) > 1:
                for g in self.ctx.ghosts:
                    if g.rec.opaque and any(same_num(w, a) and a.rename_to(g.at(te(c))) for c in (i + 1, i) for w in g.unfold(te(c))):
                        break

    def __iter__(self):
        seq, eng = self.seq, self.eng
        if yes(S.rel(seq.n, '==')):
            return
        eng.assume(S.rel(-seq.n, '<'))
        n = con(seq.n)
        if n is not None:
            self.track = any(g.rec.opaque for g in self.ctx.ghosts)
            for i in range(n):
                yield seq.at(te(i))
                if self.track:
                    self.name_arrays(i)
            return
        roots0 = self.roots(self.loc0)
        s0 = Snap(roots0)
        e0 = self.events()
        self.track = True
        first = seq.at(ZERO)
        W = eng.templates.setdefault(self.site, {}).setdefault(('writes',), [])
        was = self.elements()
        yield first
        if not self.ended:
            raise Unsupported('an iteration ended in an unexpected way')
        self.writes(was, ZERO, W)
        self.refresh()
        n = con(seq.n)                  # an equality may have fixed it
        roots1 = self.roots(self.loc)
        s1 = Snap(roots1)
        if self.events() != e0:
            raise Unsupported('effects inside a loop of unknown length')
        khead = shim.fresh_head('k@%x' % (hash(self.site) & 0xffffffffff), (), input=True, isint=True, index=True, lo=Fraction(1), bind=True, pos=True)
        kt = bound_index(khead, 1)
        T = Tmpl(self.site, eng.templates.setdefault(self.site, {}), khead, s0, s1, self.ctx.ghosts)
        T.bound = con(kt) is not None
        d0 = dict(roots0)
        nodes = {}
        for key, v in roots1:
            nodes[key] = T.build(key, v, d0.get(key, MISSING))
        for node in all_nodes(nodes.values()):
            node.rename()
        # both ways for every site: what leaves the loop here was shown to be preserved here
        step = bool(SymBool('opaque', 'loop step %s, %d' % (self.site, self.ordinal), ()))
        tau = kt if step else seq.n
        if step:
            eng.assume(S.rel(kt - seq.n, '<'))
        log = []
        self.sym = True
        self.place(T, nodes, tau, log)
        for node in T.memo.values():
            if node.kind == 'pers' and isinstance(node.v1, list) and node.grow:
                node.held = [(s[0], list(s[1])) if s[0] == 'items' else s for s in (node.v1.segs if node.v1.segs is not None else [('items', list(node.v1))])]
        if not step:
            if W:
                ran = [ZERO]
                for j in [f for f in self.ctx.focus]:
                    for o in sorted({o for _, o, _ in W}):
                        i = j - o
                        if any(same_index(i, r) for r in ran) or yes(S.rel(i, '<')) or not yes(S.rel(i - seq.n, '<')) or any(yes(S.rel(i - r, '==')) for r in ran):
                            continue
                        ran.append(i)
                        self.place(T, nodes, i, [])
                        self.ended = False
                        yield seq.at(i)
                        if not self.ended:
                            raise Unsupported('an iteration ended in an unexpected way')
                self.place(T, nodes, seq.n, [])
                for q in {p: self.ctx.seqs[p] for p, _, _ in W}.values():
                    q.effects.append(Effect(q, [(o, a) for p, o, a in W if p == q.serial], ran, seq.n))
                for q, i, v in list(self.ctx.elements.values()):
                    if q.effects and any(p == q.serial for p, _, _ in W):
                        q.effects[-1].late(v, i)
                self.refresh()
            return
        mark = len(self.ctx.obls)
        self.ended = False
        item = seq.at(kt)
        if W:
            for q in {p: self.ctx.seqs[p] for p, _, _ in W}.values():
                q.effects.append(Effect(q, [(o, a) for p, o, a in W if p == q.serial], [], None, kt))
            for q, i, v in list(self.ctx.elements.values()):
                if any(p == q.serial for p, _, _ in W):
                    q.effects[-1].late(v, i)
            self.refresh()
        was = self.elements()
        yield item
        if not self.ended:
            raise Unsupported('an iteration ended in an unexpected way')
        if self.writes(was, kt, W):
            raise Restart()
        if self.events() != e0:
            raise Unsupported('effects inside a loop of unknown length')
        if not unmodified(log):
            raise Unsupported('a value from an earlier iteration is modified')
        for v, rec in self.ctx.handed:
            if element(v) is not None:
                rec = [r for r in rec if r[0] is not v]     # its own attributes: writes() above
            if not unmodified(rec):
                raise Unsupported('an element of a sequence is modified')
        bad, seen = [], set()
        now = dict(self.roots(self.loc))
        for key, node in nodes.items():
            if key not in now:
                raise Unsupported('a variable disappears')
            node.match(now[key], kt + 1, bad, seen)
        if any(key not in nodes for key in now):
            raise Unsupported('a variable appears in a later iteration')
        if bad:
            # where several recursions fit the first iteration, another one is tried before anything else is given up
            bad = list({n.p: n for n in bad}.values())
            for node in [n for n in bad if n.ambiguous()] or bad:
                node.weaken()
            raise Restart()
        o = self.ctx.obl('loop invariant preserved (%s, nesting %d)' % (self.site[0].split(':')[0], len(self.site[1])))
        o.status, o.how = 'proved', 'induction on the iterations'
        kinds = {}
        for node in all_nodes(nodes.values()):
            k = node.kind if node.kind != 'leaf' else node.cand.kind
            kinds[k] = kinds.get(k, 0) + 1
        o.detail = 'slots by template: %s' % kinds
        e = EndPath()
        e.obls = self.ctx.obls[mark:]
        raise e


def all_nodes(ns):
    seen, todo = set(), list(ns)
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        yield n
        todo += list(getattr(n, 'kids', {}).values()) + list(getattr(n, 'items', []))


def h_loop(it, site, loc):
    if isinstance(it, (SymSeq, SymIter)) or (isinstance(it, TList) and it.segs is not None):
        return Loop(it, site, loc)
    if isinstance(it, LazyGen):
        return Plain(it)
    return Plain(it)


def bound_index(h, lo):
    """The index symbol, or the number this path has fixed it to."""
    b = Engine.cur().binds
    if h.name not in b:
        return core.atom(h)
    v = Fraction(b[h.name])
    if v.denominator != 1 or v < lo:
        raise Infeasible()
    return te(v)


def h_comp(it, whole, one, closes):
    v = it.take() if isinstance(it, SymIter) else view(it)
    if v is None:
        return TList(whole(it))
    if con(v.n) is not None:
        return TList(whole(list(v)))
    if closes:
        raise Unsupported('functions made in a comprehension of unknown length')
    n = v.n

    def f(x):
        r = one(x)
        if len(r) != 1:
            raise Unsupported('a comprehension of unknown length with a condition')
        return r[0]
    out = SymSeq(n, lambda i: f(v.at(i)))
    out.made = True
    eng = Engine.cur()
    if getattr(eng, 'ctx', None) is not None:
        out.serial = len(eng.ctx.seqs)
        eng.ctx.seqs.append(out)
    # every element is computed now: run the generic one for its exceptions and effects
    eng = Engine.cur()
    if not yes(S.rel(n, '==')):
        eng.assume(S.rel(-n, '<'))
        w = len(shim.World.cur.events)
        kh = shim.fresh_head('c@%x' % (hash((tuple(eng.taken), id(one.__code__))) & 0xffffffffff), (), input=True, isint=True, index=True, lo=Fraction(0), nonneg=True, bind=True)
        rec = []
        for c in one.__closure__ or ():
            try:
                rec += contents(c.cell_contents)
            except ValueError:
                pass
        facts = list(eng.facts)
        kt = bound_index(kh, 0)
        eng.assume(S.rel(kt - n, '<'))
        x = out.at(kt)
        eng.facts = facts
        if out.made and element(x) is not None:
            del eng.ctx.elements[id(x)]
            eng.ctx.handed = [r for r in eng.ctx.handed if r[0] is not x]
            out.memo.clear()
        if len(shim.World.cur.events) != w or not unmodified(rec):
            raise Unsupported('effects in a comprehension of unknown length')
    if isinstance(it, TList) and it.segs is not None:
        return mapped(f, it)
    return TList.of([('seq', out)])


def h_list(*a):
    if not a:
        return TList()
    x = a[0]
    if isinstance(x, LazyGen):
        return x.eager()
    v = x.take() if isinstance(x, SymIter) else view(x)
    if v is not None:
        return TList.of([('seq', v)])
    return TList(x)


def h_tuple(*a):
    if a and (view(a[0]) is not None or isinstance(a[0], LazyGen)):
        return h_list(*a) if con(as_view(h_list(*a)).n) is None else tuple(h_list(*a))
    return tuple(*a)


class LazyGen:
    """A call of a generator function: run as a generator, or eagerly when it is listed."""

    def __init__(self, gen, twin, a, k):
        self.gen, self.twin, self.a, self.k = gen, twin, a, k
        self.it = None

    def __iter__(self):
        if self.it is None:
            self.it = self.gen(*self.a, **self.k)
        return self.it

    def __next__(self):
        return next(iter(self))

    def eager(self):
        if self.it is not None:
            return TList(self.it)
        out = TList()
        self.it = iter(())
        self.twin(out, *self.a, **self.k)
        return out

    def send(self, v):
        return iter(self).send(v)

    def close(self):
        if self.it is not None:
            self.it.close()


def h_gen(gen, twin):
    @functools.wraps(gen)
    def f(*a, **k):
        return LazyGen(gen, twin, a, k)
    return f


def h_mklist(xs):
    return TList(xs)


HELPERS = {'__epv_loop__': h_loop, '__epv_comp__': h_comp, '__epv_list__': h_list, '__epv_tuple__': h_tuple, '__epv_mklist__': h_mklist,
           '__epv_gen__': h_gen}


# ------------------------------------------------------------------ builtins over sequences
def is_sym(x):
    return isinstance(x, (SymSeq, SymIter)) or (isinstance(x, TList) and x.segs is not None)


def taken(x):
    if isinstance(x, SymIter):
        return x.take()
    if isinstance(x, LazyGen):
        x = x.eager()
    return as_view(x)


def b_enumerate(x, start=0):
    if not is_sym(x):
        return enumerate(x, start)
    v = taken(x)
    return SymIter(SymSeq(v.n, lambda i: (num(i + arr.te_of(start)), v.at(i)), plain=True))


def b_zip(*xs, **k):
    if not any(is_sym(x) for x in xs):
        return zip(*xs, **k)
    vs = [taken(x) for x in xs]
    n = vs[0].n
    for v in vs[1:]:
        if not core.equal(v.n, n) and yes(S.rel(v.n - n, '<')):
            n = v.n
    return SymIter(SymSeq(n, lambda i: tuple(v.at(i) for v in vs), plain=True))


def b_map(f, *xs):
    if not any(is_sym(x) for x in xs):
        return map(f, *xs)
    z = b_zip(*xs)
    s = h_comp(z, lambda it: [f(*x) for x in it], lambda x: [f(*x)], False)
    return SymIter(as_view(s))


def b_reversed(x):
    if isinstance(x, SymSeq):
        return SymIter(x.rev())
    return reversed(x)


def b_iter(x, *a):
    if isinstance(x, SymIter):
        return x
    if is_sym(x):
        return SymIter(view(x))
    return iter(x, *a)


def b_next(x, *d):
    if isinstance(x, SymSeq):
        raise TypeError('list object is not an iterator')
    return next(x, *d)


class _Range(type):
    def __instancecheck__(cls, x):
        return isinstance(x, range)

    def __call__(cls, *a):
        if not any(isinstance(x, Sc) and con(x.t) is None for x in a):
            return range(*[int(x) if isinstance(x, Sc) else x for x in a])
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if st not in (1, -1):
            raise Unsupported('range with a step')
        if any(isinstance(x, Sc) and not x.isint for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        lo, hi = arr.te_of(lo), arr.te_of(hi)
        n = (hi - lo).scale(st)
        if yes(S.rel(n, '<')):
            return range(0)
        return SymSeq(n, lambda i: num(lo + i.scale(st)))


class b_range(metaclass=_Range):
    pass


def b_any(xs):
    if is_sym(xs):
        raise Unsupported('any() over a sequence of unknown length')
    return any(xs)


BUILTINS = {'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map, 'reversed': b_reversed, 'iter': b_iter, 'next': b_next, 'range': b_range}


# ------------------------------------------------------------------ sums
def seq_sum(xs, start=0):
    v = view(xs)
    if con(v.n) is not None:
        r = start
        for x in v:
            r = r + x
        return r
    return arr.mk(seg_sum(xs)) + start


def seq_mean(xs):
    v = view(xs)
    return arr.mk(seg_sum(xs) * core.recip(v.n))


def apply(g, v):
    return SymSeq(v.n, lambda i: g(v.at(i)))


def handing(v):
    ctx = getattr(Engine.cur(), 'ctx', None)
    if ctx is not None:
        ctx.handed.append((v, contents(v)))
    return v


def mapped(g, xs):
    return TList.of([('items', [g(x) for x in s[1]]) if s[0] == 'items' else ('seq', apply(g, s[1])) if s[0] == 'seq'
                     else s[:3] + (lambda i, q, get=s[3]: handing(g(get(i, q))),) + s[4:] for s in xs.segs])


def np_total(xs, axis, keepdims, mean):
    if keepdims or axis is not None:
        raise Unsupported('sum of a sequence along an axis')
    f = arr.mean if mean else arr.reduce_sum
    g = lambda x: f(x, None, False) if isinstance(x, Arr) else x
    if isinstance(xs, TList):
        w = mapped(g, xs)
    else:
        w = apply(g, view(xs))
    return seq_mean(w) if mean else seq_sum(w)


CAN = None


def canonical():
    global CAN
    if CAN is None:
        CAN = core.new_head('j', 'base', (), False, (), input=True, isint=True, index=True, nonneg=True, lo=Fraction(0))
    return CAN


def sum_term(v):
    """Sum over all elements (scalars) of a sequence: linear, and one opaque atom per remaining summand."""
    eng = Engine.cur()
    eng.sums = getattr(eng, 'sums', 0) + 1
    j = shim.fresh_head('s@%d' % eng.sums, (), input=True, isint=True, index=True, nonneg=True, lo=Fraction(0), bind=False)
    w, nf = len(eng.taken), len(eng.facts)
    eng.assume(S.rel(core.atom(j) - v.n, '<'))
    x = v.at(core.atom(j))
    if isinstance(x, Arr) and not x.size_is_one():
        raise Unsupported('sum of a sequence of arrays')
    t = arr.te_of(x)
    if len(eng.taken) != w:
        raise Unsupported('a sum over elements that take different branches')
    del eng.facts[nf:]
    return sum_over(t, j, v.n)


def seg_sum(xs):
    """The sum segment by segment."""
    if not (isinstance(xs, TList) and xs.segs is not None):
        return sum_term(view(xs))
    tot = ZERO
    pend = []                        # numbers before a growing segment, not yet counted
    for s in xs.segs:
        if s[0] == 'items':
            pend += [arr.te_of(x) for x in s[1]]
            continue
        if s[0] == 'seq':
            tot = tot + sum_term(s[1])
            continue
        _, n, r, get, back = s
        lo = 0
        # the first iteration, kept apart, is an instance of the generic one
        while back and len(pend) >= r and lo > -3 and all(core.equal(pend[q - r], arr.te_of(get(te(lo - 1), q))) for q in range(r)):
            del pend[len(pend) - r:]
            lo -= 1
        for q in range(r):
            tot = tot + sum_term(SymSeq(n - lo, lambda i: get(i + lo, q)))
    for x in pend:
        tot = tot + x
    return tot


def sum_over(t, j, n):
    tot = ZERO
    for k, c in t.d.items():
        m = TE({k: 1})
        pts = core.points_at(m, j.uid, {})
        if pts:
            # entries of an array: the sum over its axis
            pid = min(pts)
            d, i = core.POINTS[pid]
            if len(pts) > 1 or not core.equal(i, core.atom(j)) or not core.equal(d.size, n) \
                    or any(core.head_depends(HEADS[u], j.uid, {}) for u in m.atoms()):
                raise Unsupported('sum over entries of an array')
            tot = tot + m.contract(pid, d).scale(c)
            continue
        if not any(core.head_depends(HEADS[u], j.uid, {}) for u in m.atoms()):
            tot = tot + m.scale(c) * n
            continue
        fs = [f for f in k if not core.head_depends(HEADS[f[0]], j.uid, {}) and not f[1]]
        rest = tuple(f for f in k if f not in fs)
        e = core.subst(TE({rest: 1}), j.uid, lambda s: core.atom(canonical()))
        tot = tot + (TE({tuple(fs): 1}) if fs else ONE).scale(c) * sum_each(e, te(n))
    return tot


def sum_each(e, n):
    """The sum of e over the canonical index, one atom per product."""
    tot = ZERO
    for k, c in e.d.items():
        h, _ = core.intern('seqsum', 'sum', (TE({k: 1}), n), {}, key=('seqsum',))
        h.meta.update(rebuild=sum_rebuild, evaluate=sum_eval)
        tot = tot + core.atom(h).scale(c)
    return tot


def sum_rebuild(h, args, slots):
    return sum_each(args[0], args[1])


def sum_eval(model, h):
    n = int(round(float(model.term(h.args[1], []))))
    tot = 0.0
    for i in range(max(n, 0)):
        tot += float(model.term(core.subst(h.args[0], canonical().uid, lambda s: te(i)), []))
    return tot


# ------------------------------------------------------------------ symbolic sequences of arrays and recursions
def seq_atom(name, part, dims, i, sym=False, **meta):
    i = norm_index(i)
    h, _ = core.intern('seq', name, (i,), {}, sym=sym, extra=(part,) if not isinstance(part, tuple) else part, key=('seq', name, part, tuple(d.uid for d in dims)))
    if 'seqname' not in h.meta:
        h.dims = tuple(dims)
        h.meta.update(seqname=name, part=part, rebuild=seq_rebuild, evaluate=seq_eval, more=meta, **meta)
    return h


def seq_rebuild(h, args, slots):
    rec = getattr(getattr(Engine.cur(), 'ctx', None), 'recs', {}).get(h.meta['seqname']) if Engine._stack else None
    if rec is not None and con(norm_index(args[0])) is not None:
        W, part = rec
        v = W.at(args[0])[part]
        if v is NOTHING:
            raise Unsupported('recursion before its start')
        v = arr.asarr(v)
        pos = h.meta['part']
        ids = [a for a, p in enumerate(pos) if v.axes[a][p] != 1]
        return v.blocks.get(pos, ZERO).rename({a: 900 + i for i, a in enumerate(ids)}).rename({900 + i: s for i, s in enumerate(slots)})
    g = seq_atom(h.meta['seqname'], h.meta['part'], h.dims, args[0], h.sym, **h.meta['more'])
    return TE(core.norm(1, [(g.uid, tuple(slots), 1)]))


def seq_eval(model, h):
    i = int(round(float(model.term(h.args[0], []))))
    key = ('seq', h.meta['seqname'], h.meta['part'], i)
    v = model.funcs.get(key)
    if v is None:
        v = model.funcs[key] = model.random(h)
    return v


def seq_array(name, axes, i, sym=False, **meta):
    """Element i of a sequence of arrays over the given axes."""
    bl = {}
    for pos in arr.positions(axes):
        if sym and pos[0] > pos[1]:
            continue
        dims = [axes[a][p] for a, p in enumerate(pos) if axes[a][p] != 1]
        ids = [a for a, p in enumerate(pos) if axes[a][p] != 1]
        m = dict(meta)
        s = False
        if sym:
            s = pos[0] == pos[1] and len(dims) == 2
            if not s:
                m.pop('pd', None), m.pop('psd', None)
                if pos[0] == pos[1] and not dims:
                    if meta.get('pd'):
                        m['pos'] = m['submatrix'] = True      # of a positive definite matrix
                    elif meta.get('psd'):
                        m['nonneg'] = True
        h = seq_atom(name, pos, dims, i, s, **m)
        bl[pos] = core.atom(h, *ids)
        if sym and pos[0] != pos[1]:
            bl[pos[::-1]] = core.atom(h, *[1 - a for a in ids])
    return Arr(axes, bl)


class Ghost:
    """One component of a recursion: at(i) as an atom (base cases as terms), unfold(i) as the step from i-1."""

    def __init__(self, rec, part):
        self.rec, self.part, self.consts = rec, part, {}

    def const(self, c):
        if c not in self.consts:
            self.consts[c] = [self.at(te(c))] + self.unfold(te(c))
        return self.consts[c]

    def at(self, i):
        return self.rec.at(i)[self.part]

    def unfold(self, i):
        try:
            r = self.rec.step_to(i)
        except Unsupported:         # outside the range the recursion is defined for
            return []
        return [] if r is None else [r[self.part]]


class Recursion:
    """W(0) = init, W(i+1) = step(i, W(i)): a tuple of arrays per index (specification side)."""

    def __init__(self, ctx, name, init, step, shapes, nbase=2, opaque=False):
        self.ctx, self.name, self.step, self.shapes, self.nbase = ctx, name, step, shapes, nbase
        self.init, self.vals = init, {}       # init may be a function, called when the base is first needed
        self.memo, self.steps = {}, {}
        self.inducted = False
        self.opaque = opaque     # W(0), W(1) .. stay symbols too (equal to their terms by unfold)
        self.parts = [Ghost(self, p) for p in range(len(shapes))]
        ctx.ghosts += self.parts
        for p in range(len(shapes)):
            ctx.recs['%s.%d' % (name, p)] = (self, p)

    def at(self, i):
        i = norm_index(ix(i))
        c = con(i)
        if c is not None and c < 0:
            return tuple(NOTHING for _ in self.parts)
        if c is not None and not self.opaque:
            if not self.vals:
                self.vals[0] = self.checked(self.init() if callable(self.init) else self.init)
            for q in range(c):
                if q + 1 not in self.vals:
                    self.vals[q + 1] = self.checked(self.step(q, self.vals[q]))
            return self.vals[c]
        k = frozenset(i.d.items())
        if k not in self.memo:
            self.induct()
            out = []
            for p, (axes, sym, meta) in enumerate(self.shapes):
                out.append(seq_array('%s.%d' % (self.name, p), axes, i, sym, **meta))
            self.memo[k] = tuple(out)
        return self.memo[k]

    def step_to(self, i):
        i = norm_index(ix(i))
        c = con(i)
        if c is not None and not self.opaque:
            return None
        key = frozenset(i.d.items())
        if key not in self.steps:
            self.steps[key] = self.step_to0(i, c)
        return self.steps[key]

    def step_to0(self, i, c):
        if c == 0:
            if not self.vals:
                self.vals[0] = self.checked(self.init() if callable(self.init) else self.init)
            return self.vals[0]
        return self.checked(self.step(num(i - 1), self.at(i - 1)))

    def checked(self, v, kept=False):
        """Components declared symmetric are (their base and step keep it): an obligation of the specification."""
        for x, (axes, sym, meta) in zip(v, self.shapes):
            if sym and not same_num(x, arr.asarr(x).T):
                raise Unsupported('recursion: a component is not symmetric')
            if sym and meta and kept:
                x = arr.asarr(x)
                n = x.axes[0]
                if len(n) != 1:
                    raise Unsupported('recursion: definiteness of a block matrix')
                t = x.blocks.get((0, 0), ZERO)
                if n[0] == 1:
                    ok = S.pd_known(Engine.cur(), SymBool('pd', [[t]])) if 'pd' in meta else S.nonneg(Engine.cur(), t)
                else:
                    ok = (S.definite(Engine.cur(), t, n[0]) if t.d else 'psd') in (('pd',) if 'pd' in meta else ('pd', 'psd'))
                if not ok:
                    raise Unsupported('recursion: a component is not kept %s' % '/'.join(meta))
        return tuple(v)

    def induct(self):
        """Declared definiteness: the base has it and the step keeps it, for an arbitrary index.

        Shown without the facts of the path, so it holds on every path with this base (the step is the same function)."""
        if self.inducted or not any(meta for _, _, meta in self.shapes):
            return
        self.inducted = True
        e = Engine.cur()
        facts, e.facts = e.facts, []
        was, e.decide = e.__dict__.get('decide'), self.no_fork
        try:
            base = self.checked(self.init() if callable(self.init) else self.init)
            key = (self.name,) + tuple(frozenset((p, frozenset(t.d.items())) for p, t in arr.asarr(x).blocks.items()) for x in base) \
                + tuple((str(f.a[:1]), v) for f, v in facts if f.kind == 'opaque' and not str(f.a[0]).startswith('loop step'))
            done = e.templates.setdefault('definite', {})
            if key not in done:
                self.checked(base, True)
                h = INDEX.get(self.name)
                if h is None:
                    h = INDEX[self.name] = core.new_head('i@' + self.name, 'base', (), False, (), isint=True, index=True, nonneg=True, lo=Fraction(0))
                i = core.atom(h)
                self.checked(self.step(num(i), self.at(i)), True)
                done[key] = True
        finally:
            e.facts = facts
            if was is None:
                del e.decide
            else:
                e.decide = was

    @staticmethod
    def no_fork(sb):
        v = Engine.cur().known_or_implied(sb)
        if v is None:
            raise Unsupported('recursion: definiteness depends on the path')
        return v


INDEX = {}


def expand(ctx, v, limit=40):
    """W(0), W(1) .. of opaque recursions replaced by their terms."""
    v = arr.asarr(v) if isinstance(v, Arr) else v
    for _ in range(limit):
        hs = {}
        for t in (v.blocks.values() if isinstance(v, Arr) else [arr.te_of(v)]):
            for h in core.heads_in(t):
                if h.kind == 'seq' and h.meta.get('seqname') in ctx.recs and con(norm_index(h.args[0])) is not None:
                    hs[h.uid] = h
        if not hs:
            return v
        h = max(hs.values(), key=lambda h: con(norm_index(h.args[0])))
        W, part = ctx.recs[h.meta['seqname']]
        r = W.step_to(h.args[0])
        if r is None:
            return v
        x = arr.asarr(r[part])
        pos = h.meta['part']
        ids = [a for a, p in enumerate(pos) if x.axes[a][p] != 1]
        t = x.blocks.get(pos, ZERO).rename({a: 900 + i for i, a in enumerate(ids)})
        f = lambda s: t.rename({900 + i: q for i, q in enumerate(s)})
        if isinstance(v, Arr):
            v = Arr(v.axes, {p: core.subst(y, h.uid, f) for p, y in v.blocks.items()})
        else:
            v = arr.mk(core.subst(arr.te_of(v), h.uid, f), isinstance(v, Sc) and v.isint)
    return v


class _Nothing:
    pass


NOTHING = _Nothing()


# ------------------------------------------------------------------ source transformation
class Names(ast.NodeVisitor):
    """Names a loop body may bind in its function's scope."""

    def __init__(self):
        self.out = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.out:
            self.out.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.out:
            self.out.append(n.name)
    visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.visit(x.target)
        self.visit(n.generators[0].iter)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_ExceptHandler(self, n):
        if n.name and n.name not in self.out:
            self.out.append(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            nm = (a.asname or a.name).split('.')[0]
            if nm not in self.out:
                self.out.append(nm)
    visit_ImportFrom = visit_Import


def parse(src):
    return ast.parse(src).body


class Conts(ast.NodeTransformer):
    """`continue` of this loop (not of inner ones) ends the iteration first."""

    def __init__(self, stmt):
        self.stmt = stmt

    def visit_Continue(self, n):
        return parse(self.stmt) + [n]

    def visit_For(self, n):
        n.orelse = [y for x in n.orelse for y in aslist(self.visit(x))]
        return n

    visit_While = visit_For

    def visit_FunctionDef(self, n):
        return n
    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef


def aslist(x):
    return x if isinstance(x, list) else [x] if x is not None else []


BAD = ('super', 'locals', '__class__')


class Loops(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = []
        self.cls = []

    def visit_ClassDef(self, n):
        f, self.fn = self.fn, []
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()
        self.fn = f
        return n

    def visit_FunctionDef(self, n):
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(n))
        plain = isgen and not self.fn and all(isinstance(p, ast.Expr) and isinstance(p.value, ast.Yield)
                                              for p, x in parents(n) if isinstance(x, (ast.Yield, ast.YieldFrom))) \
            and not any(isinstance(x, ast.Return) and x.value is not None for x in own(n)) and not n.decorator_list
        self.fn.append(set())
        n.body = [y for x in n.body for y in aslist(self.visit(x))]
        self.fn.pop()
        if not plain:
            return n
        import copy
        tw = copy.deepcopy(n)
        tw.name = '_epvtwin_' + n.name
        tw.args.posonlyargs = [ast.arg('__epv_out__')] + tw.args.posonlyargs
        YieldToAppend().visit(tw)
        src = '%s = __epv_gen__(%s, %s)' % (n.name, n.name, tw.name)
        return [tw, n] + parse(src) + parse('del ' + tw.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_For(self, n):
        n.iter = self.visit(n.iter)
        n.body = [y for x in n.body for y in aslist(self.visit(x))]
        n.orelse = [y for x in n.orelse for y in aslist(self.visit(x))]
        if not self.fn:
            return n
        self.n += 1
        L, X = '_epvL%d' % self.n, '_epvx%d' % self.n
        v = Names()
        v.visit(n.target)
        for s in n.body:
            v.visit(s)
        names = [x for x in v.out if not x.startswith('_epv')]
        load = 'if %s.sym:\n' % L + ''.join('    if %s.has(%r): %s = %s.load(%r)\n' % (L, self.mangled(x), x, L, self.mangled(x)) for x in names) + '    pass\n'
        end = 'if %s.track: %s.end(locals())' % (L, L)
        body = [y for s in n.body for y in aslist(Conts(end).visit(s))]
        new = parse('%s = __epv_loop__(0, %r, locals())' % (L, '%s:%d' % ('.'.join(self.cls) or 'function', self.n)))
        new[0].value.args[0] = n.iter
        loop = parse('for %s in %s:\n    pass' % (X, L))[0]
        loop.body = parse(load) + [ast.Assign(targets=[n.target], value=ast.Name(X, ast.Load()))] + body + parse(end)
        loop.orelse = parse(load) + n.orelse
        for s in new + [loop]:
            for x in ast.walk(s):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
        return new + [loop]

    def mangled(self, x):
        return '_' + self.cls[-1].lstrip('_') + x if self.cls and x.startswith('__') and not x.endswith('__') else x

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if not self.fn:
            return n
        import copy
        if len(n.generators) != 1 or n.generators[0].is_async or any(
                isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or (isinstance(x, ast.Name) and x.id in BAD) for x in ast.walk(n)):
            return ast.Call(ast.Name('__epv_mklist__', ast.Load()), [n], [])
        g = n.generators[0]
        closes = any(isinstance(x, (ast.Lambda, ast.GeneratorExp)) for x in ast.walk(n.elt))
        a = copy.deepcopy(n)
        a.generators[0].iter = ast.Name('__epv_it__', ast.Load())
        b = copy.deepcopy(n)
        b.generators[0].iter = ast.Tuple([ast.Name('__epv_it__', ast.Load())], ast.Load())
        lam = lambda e: ast.Lambda(ast.arguments([], [ast.arg('__epv_it__')], None, [], [], None, []), e)
        r = ast.Call(ast.Name('__epv_comp__', ast.Load()), [g.iter, lam(a), lam(b), ast.Constant(closes)], [])
        return r

    def visit_List(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.ctx, ast.Load):
            return ast.Call(ast.Name('__epv_mklist__', ast.Load()), [n], [])
        return n

    def visit_Call(self, n):
        # a generator passed straight to a function that consumes it is a list
        if self.fn and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'sum', 'any', 'all') and n.args and isinstance(n.args[0], ast.GeneratorExp) \
                and n.func.id != 'any' and n.func.id != 'all':
            g = n.args[0]
            n.args[0] = ast.ListComp(g.elt, g.generators)
        self.generic_visit(n)
        if self.fn and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple'):
            n.func.id = '__epv_%s__' % n.func.id
        return n


class YieldToAppend(ast.NodeTransformer):
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            v = n.value.value or ast.Constant(None)
            return ast.Expr(ast.Call(ast.Attribute(ast.Name('__epv_out__', ast.Load()), 'append', ast.Load()), [v], []))
        return n

    def visit_Lambda(self, n):
        return n


def own(fn):
    """Nodes of a function, without nested functions."""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))


def parents(fn):
    todo = [(fn, x) for x in fn.body]
    while todo:
        p, x = todo.pop()
        yield p, x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo += [(x, y) for y in ast.iter_child_nodes(x)]


def transform(tree):
    return Loops().visit(tree)
