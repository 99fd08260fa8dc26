"""Numeric models of terms: every atom gets a concrete random value, path conditions are checked in floating point.

Used for counter-models of obligations the normal form does not prove, and to show that path conditions are
satisfiable (vacuity).  Never used to discharge an obligation."""
import numpy as np
from . import core, arr
from .core import TE, HEADS, base, off, BB, Unsupported


class NoValue(Exception):
    pass


class Model:
    def __init__(self, rng, scales=None, scalars=None):
        self.rng = rng
        self.sizes = {}
        self.vals = {}
        self.scales = scales or {}
        self.scalars = scalars or {}
        self.funcs = {}

    # -- sizes
    def size(self, dim):
        v = self.sizes.get(dim.uid)
        if v is None:
            v = int(round(float(self.term(dim.size, []))))
            self.sizes[dim.uid] = v
        return v

    # -- terms
    def term(self, t, ids):
        """Array over the free ids (in that order)."""
        tot = None
        mag = None
        dims = core.dims_in(t)
        for k, v in t.d.items():
            x = self.mono(k, ids, dims) * float(v)
            tot = x if tot is None else tot + x
            mag = np.abs(x) if mag is None else mag + np.abs(x)
        if tot is None:
            shape = ()
            tot = np.zeros(shape)
            mag = np.zeros(shape)
        self.mag = mag
        return tot

    def position(self, t, n):
        i = float(self.term(t, []))
        if abs(i - round(i)) > 1e-9 or not 0 <= round(i) < n:
            raise NoValue('a position outside the axis')
        return int(round(i))

    def mono(self, k, ids, dims):
        ops = []
        let = {}
        used = set()

        def L(x):
            b = base(x)
            if b not in let:
                let[b] = len(let)
            return let[b]
        for (u, s, e) in k:
            a = self.head(u)
            if e != 1:
                with np.errstate(all='ignore'):
                    a = np.asarray(a, dtype=float) ** e
            for q, x in enumerate(s):
                o = off(x)
                if o:
                    a = np.roll(a, -o, axis=q)
            at = [q for q, x in enumerate(s) if core.PT <= base(x) < core.BB and base(x) in core.POINTS]
            if at:
                for q in reversed(at):
                    a = np.take(a, self.position(core.POINTS[base(s[q])][1], np.shape(a)[q]), axis=q)
                s = tuple(x for q, x in enumerate(s) if q not in at)
            ops += [a, [L(x) for x in s]]
            used |= {base(x) for x in s}
        for i in ids:
            if i not in used:
                if i not in dims:
                    raise NoValue('size of a free index')
                ops += [np.ones(self.size(dims[i])), [L(i)]]
        if not ops:
            return np.asarray(1.0)
        return np.einsum(*ops, [let[i] for i in ids], optimize='greedy' if len(let) > 5 else False)

    # -- heads
    def head(self, u):
        v = self.vals.get(u)
        if v is None:
            h = HEADS[u]
            v = self.make(h)
            if not np.all(np.isfinite(v)):
                raise NoValue('not finite: ' + h.name)
            self.vals[u] = v
        return v

    def shape(self, h):
        return tuple(self.size(d) for d in h.dims)

    def arg(self, h, i=0):
        """Template argument i as an array over the head's slots."""
        nk = h.meta.get('nk', 0)
        return self.over(h.args[i], [nk + j for j in range(len(h.dims))], h.dims)

    def over(self, t, ids, dims):
        """Array of t over ids, broadcast to dims even where t does not depend on an id."""
        have = [i for i in ids if i in t.free()]
        a = self.term(t, have)
        full = tuple(self.size(d) if i in have else 1 for i, d in zip(ids, dims))
        a = np.asarray(a).reshape(full) if a.ndim == len(have) else a
        return np.broadcast_to(a, tuple(self.size(d) for d in dims))

    def make(self, h):
        m = h.meta
        if 'numeric' in m:
            return np.asarray(float(m['numeric']))
        ev = m.get('evaluate')
        if ev is not None:
            return np.asarray(ev(self, h))
        k = h.kind
        if k in ('base', 'probe'):
            return self.random(h)
        if k == 'delta':
            return np.eye(self.size(h.dims[0]))
        if k == 'recip':
            with np.errstate(all='ignore'):
                return 1.0 / self.arg(h)
        if k == 'inv':
            try:
                return np.linalg.inv(self.term(h.args[0], [0, 1]))
            except np.linalg.LinAlgError:
                raise NoValue('singular')
        if k == 'chol':
            a = self.term(h.args[0], [0, 1])
            try:
                return np.linalg.cholesky((a + a.T) / 2)
            except np.linalg.LinAlgError:
                raise NoValue('not pd')
        if k == 'cholinv':
            return np.linalg.inv(self.head(m['chol']))
        if k == 'eig':
            return np.linalg.eigvalsh(self.term(h.args[0], [0, 1]))
        if k == 'blk':
            name, n, i, j = m['blk']
            a = np.array([[float(self.term(h.args[r * n + c], [])) for c in range(n)] for r in range(n)])
            try:
                b = np.linalg.inv(a) if name == 'invblk' else np.linalg.cholesky((a + a.T) / 2)
            except np.linalg.LinAlgError:
                raise NoValue('singular')
            return np.asarray(b[i, j])
        if m.get('fn') or k in ELEM:
            with np.errstate(all='ignore'):
                return ELEM[k](self.arg(h))
        if m.get('fn2'):
            return ELEM2[k](self.arg(h, 0), self.arg(h, 1))
        if k == 'opaque':
            a = self.array_of(m['axes'], dict(zip(m['poss'], h.args)))
            return np.asarray(OPAQUE[h.name](a))
        raise NoValue('value of ' + h.name)

    def array_of(self, axes, blocks):
        """Concrete array of a block array."""
        sizes = [[1 if p == 1 else self.size(p) for p in ax] for ax in axes]
        offs = [np.concatenate([[0], np.cumsum(s)]) for s in sizes]
        out = np.zeros([int(o[-1]) for o in offs])
        for pos, t in blocks.items():
            if not t.d:
                continue
            ids = [i for i, p in enumerate(pos) if axes[i][p] != 1]
            dims = [axes[i][p] for i, p in enumerate(pos) if axes[i][p] != 1]
            a = self.over(t, ids, dims)
            sl = tuple(slice(int(offs[i][p]), int(offs[i][p + 1])) for i, p in enumerate(pos))
            out[sl] = a.reshape(out[sl].shape)
        return out

    def random(self, h):
        m = h.meta
        r = self.rng
        shape = self.shape(h)
        if h.name in self.scalars and not shape:
            return np.asarray(float(self.scalars[h.name]))
        if m.get('dimsize'):
            return np.asarray(float(r.integers(2, 4)))
        sc = self.scales.get(h.name, 1.0)
        lo, hi = m.get('lo'), m.get('hi')
        if m.get('isint'):
            lo_ = int(lo) if lo is not None else 1
            return np.asarray(float(r.integers(lo_, (int(hi) if hi is not None else lo_ + 5) + 1)))
        if lo is not None and hi is not None:
            lo_, hi_ = float(lo), float(hi)
            return lo_ + (hi_ - lo_) * r.uniform(0.02, 0.98, shape)
        if lo is not None:
            return float(lo) + sc * r.exponential(1.0, shape) + 1e-3
        if m.get('pos') or m.get('nonneg'):
            return sc * (r.exponential(1.0, shape) + 0.05)
        if m.get('pd') or m.get('psd'):
            n = shape[0]
            a = r.standard_normal((n, n + 1))
            return sc * (a @ a.T / n + (0.2 * np.eye(n) if m.get('pd') else 0))
        if h.sym and len(shape) == 2:
            n = shape[0]
            a = r.standard_normal((n, n + 1))
            if r.random() < 0.5:
                return sc * (a @ a.T / n + 0.2 * np.eye(n))
            b = r.standard_normal((n, n))
            return sc * (b + b.T)
        return sc * r.standard_normal(shape)

    # -- conditions
    def holds(self, sb):
        k = sb.kind
        if k == 'const':
            return sb.a[0]
        if k == 'not':
            return not self.holds(sb.a[0])
        if k == 'and':
            return self.holds(sb.a[0]) and self.holds(sb.a[1])
        if k == 'or':
            return self.holds(sb.a[0]) or self.holds(sb.a[1])
        if k == 'rel':
            x = float(self.term(sb.a[0], []))
            eps = 1e-9 * (1e-30 + float(self.mag))
            op = sb.a[1]
            if op == '==':
                return abs(x) <= eps
            if op == '<':
                return x < 0
            return x <= eps
        if k == 'pd':
            a = self.matrix(sb.a[0])
            w = np.linalg.eigvalsh((a + a.T) / 2)
            if abs(w).max() > 0 and abs(w[0]) < 1e-7 * abs(w).max():
                raise NoValue('on the boundary')
            return bool(w[0] > 0)
        if k == 'sing':
            a = self.matrix(sb.a[0])
            s = np.linalg.svd(a, compute_uv=False)
            return bool(s[-1] <= 1e-12 * (s[0] + 1e-300))
        if k == 'all':
            op, blocks = sb.a
            for t in blocks:
                fr = sorted(t.free())
                x = self.term(t, fr)
                mag = self.mag
                if op == '==' and not np.all(np.abs(x) <= 1e-9 * (mag + 1e-30)):
                    return False
                if op == '<' and not np.all(x < 0):
                    return False
                if op == '<=' and not np.all(x <= 1e-9 * mag):
                    return False
            return True
        raise NoValue('condition ' + k)

    def matrix(self, m):
        if isinstance(m[0], TE):
            return self.over(m[0], [0, 1], [m[1], m[1]])
        return np.array([[float(self.term(x, [])) for x in r] for r in m])


ELEM = {'let': lambda x: x, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'log': np.log, 'sqrt': np.sqrt, 'abs': np.abs,
        'arctan': np.arctan, 'tanh': np.tanh, 'sinh': np.sinh, 'cosh': np.cosh, 'sign': np.sign, 'floor': np.floor}
ELEM2 = {'arctan2': np.arctan2, 'maximum': np.maximum, 'minimum': np.minimum,
         'mod': np.mod, 'floordiv': np.floor_divide, 'pow': np.power, 'rpow': np.power}
OPAQUE = {'nucnorm': lambda a: np.linalg.norm(a, 'nuc'), 'det': np.linalg.det,
          'logdet': lambda a: np.linalg.slogdet(a)[1], 'cond': np.linalg.cond, 'max': np.max, 'min': np.min,
          'norm_2': lambda a: np.linalg.norm(a, 2), 'norm_1': lambda a: np.linalg.norm(a, 1)}


def sample_models(facts, seed=0, tries=120, want=4, hints=(), names=()):
    """Models satisfying the path facts."""
    got = []
    names = list(names)
    for i in range(tries):
        rng = np.random.default_rng(seed * 1000 + i)
        scales = {}
        if i % 3 == 2 and names:
            f = [1e-14, 1e-7, 1e-3, 1e3][rng.integers(4)]
            for n in names:
                if rng.random() < 0.4:
                    scales[n] = f
        m = Model(rng, scales)
        try:
            if all(m.holds(f) == v for f, v in facts):
                got.append(m)
                if len(got) >= want:
                    break
        except (NoValue, np.linalg.LinAlgError, ValueError, OverflowError, ZeroDivisionError):
            continue
    return got


_probe = []


def nonzero(d):
    """Is the term different from zero at a fixed random model?  (False when it cannot be evaluated.)"""
    if not _probe:
        _probe.extend(Model(np.random.default_rng(7 + i)) for i in range(2))
    for m in _probe:
        if len(m.vals) > 20000:
            m.vals.clear()
        try:
            x = m.term(d, sorted(d.free()))
            mag = m.mag
        except (NoValue, Unsupported, np.linalg.LinAlgError, ValueError, OverflowError, ZeroDivisionError, FloatingPointError):
            continue
        if np.all(np.isfinite(x)) and np.any(np.abs(x) > 1e-5 * (mag + 1e-300)):
            return True
    return False


core.NONZERO.append(nonzero)
