"""Contracts evaluated on the real installed code with random inputs (replay and cross-check side).

Runs under the repository's own interpreter (Python 3.9 syntax).  Usage:
    python cctx.py run <prop> <seed> <factor> <out.json> [hints.json]
    python cctx.py replay <file.json>
"""
import json
import os
import sys
import tempfile
import types
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EPV_REPO', '/repo')
sys.dont_write_bytecode = True


class Outcome(object):
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc


class Skip(Exception):
    """The drawn input does not satisfy the contract's precondition."""


class Failure(Exception):
    pass


class Dimension(object):
    def __init__(self, name, n):
        self.name, self.n = name, n


def _np():
    import numpy
    return numpy


class FuncC(object):
    def __init__(self, rng, name, n, m, style, uses):
        self.name, self.n, self.m, self.style, self.uses = name, n, m, style, uses
        self.A = rng.standard_normal((m, n)) * 0.6
        self.B = rng.standard_normal((m, n)) * 0.7
        self.c = rng.standard_normal(m)
        self.C = rng.standard_normal((m, n)) * 0.3
        self.dt = rng.standard_normal(m)
        self.du = rng.standard_normal(m)
        self.ncalls = 0

    def degenerate(self, rng):
        k = int(rng.integers(5))
        np = _np()
        if k == 0:                      # affine
            self.B[:] = 0
            self.C[:] = 0
        elif k == 1:                    # stationary where C x = 0, e.g. at the origin
            self.A[:] = 0
            self.B[:] = 0
        elif k == 2:                    # a component that does not depend on x
            i = int(rng.integers(self.m))
            self.A[i] = self.B[i] = self.C[i] = 0
        elif k == 3:                    # does not depend on x at all
            self.A[:] = 0
            self.B[:] = 0
            self.C[:] = 0
        else:                           # an input coordinate that is not used, identity when square
            if self.n == self.m:
                self.A[:] = np.eye(self.n)
                self.B[:] = 0
                self.C[:] = 0
                self.c[:] = 0
            else:
                j = int(rng.integers(self.n))
                self.A[:, j] = self.B[:, j] = self.C[:, j] = 0
        return self

    def __call__(self, x, t=None, u=None, **kw):
        return self.at(x, t, u)

    def at(self, x, t=None, u=None):
        import autograd.numpy as anp
        nd = anp.ndim(x)
        y = anp.tanh(anp.dot(x, self.B.T) + self.c) + anp.dot(x, self.A.T) + 0.2 * anp.dot(x, self.C.T) ** 2
        for k, v, d in (('t', t, self.dt), ('u', u, self.du)):
            if k in self.uses:
                y = y + (0.7 * d if v is None else 0.3 * anp.sin(1.0 + 2.3 * v) * d)
        if self.style == 'row1' and nd == 1:
            y = anp.reshape(y, (1, self.m))
        return y


    def jac(self, x, t=None, u=None):
        np = _np()
        x = np.asarray(x, dtype=float)
        z = np.tanh(self.B @ x + self.c)
        return (1 - z ** 2)[:, None] * self.B + self.A + 0.4 * (self.C @ x)[:, None] * self.C


class TransformC(object):
    def __init__(self, ctx, rng, name, n, m):
        self.ctx, self.name, self.n, self.m = ctx, name, n, m
        self.E = rng.standard_normal((m, m)) * 0.3

    def __call__(self, func, state, *a, **k):
        np = _np()
        m0, P = np.array(state.mean, dtype=float), np.array(state.cov, dtype=float)
        self.ctx.calls.append((self.name, m0.copy(), P.copy()))

        def f(x):
            y = np.asarray(func(x), dtype=float)
            return y.reshape(-1)
        J = np.zeros((self.m, self.n))
        for i in range(self.n):
            e = np.zeros(self.n)
            e[i] = 1e-3
            J[:, i] = (f(m0 + e) - f(m0 - e)) / 2e-3
        mean = f(m0) + 0.05 * np.tanh(np.trace(P))
        cov = J @ P @ J.T + self.E @ self.E.T * (1 + np.tanh(np.sum(m0)) ** 2)
        cov = (cov + cov.T) / 2
        return mean, cov, P @ J.T


class Recorder(object):
    """Records global random draws while a contract runs."""
    NAMES = ('multivariate_normal', 'normal', 'randn', 'standard_normal', 'rand', 'random', 'random_sample', 'uniform')

    def __init__(self, events):
        np = _np()
        self.np, self.events, self.saved = np, events, {}
        for k in self.NAMES:
            self.saved[k] = getattr(np.random, k)
            setattr(np.random, k, self.wrap(k, self.saved[k]))
        self.saved['seed'] = np.random.seed
        np.random.seed = lambda seed=None: (events.append(('seed', seed)), self.saved['seed'](seed))[1]
        for k in ('default_rng', 'RandomState'):
            self.saved[k] = getattr(np.random, k)
            setattr(np.random, k, self.other(self.saved[k]))

    def wrap(self, kind, f):
        np = self.np

        def g(*a, **k):
            r = f(*a, **k)
            if kind == 'multivariate_normal':
                mean = k.get('mean', a[0] if a else None)
                cov = k.get('cov', a[1] if len(a) > 1 else None)
                size = k.get('size', a[2] if len(a) > 2 else None)
                self.events.append(('draw', 'mvn', np.array(r), np.array(mean), np.array(cov), size))
            else:
                self.events.append(('draw', kind, np.array(r)))
            return r
        return g

    def other(self, f):
        def g(*a, **k):
            self.events.append(('other-generator',))
            return f(*a, **k)
        return g

    def restore(self):
        for k, f in self.saved.items():
            setattr(self.np.random, k, f)


class Recursion(object):
    def __init__(self, init, step):
        self.vals, self.step = [tuple(init() if callable(init) else init)], step

    def at(self, k):
        while len(self.vals) <= k:
            self.vals.append(tuple(self.step(len(self.vals) - 1, self.vals[-1])))
        return self.vals[k]


class Ctx(object):
    symbolic = False

    def __init__(self, case, rng, contract, hints=None, sizes=(1, 4), special=False):
        import numpy
        # an independent stream decides which inputs of a special trial are degenerate
        self.sp = numpy.random.default_rng(int(rng.integers(1 << 30))) if special else None
        self.np = numpy
        self.LinAlgError = numpy.linalg.LinAlgError
        self.case, self.rng, self.contract = case, rng, contract
        self.hints = hints or {}
        self.sizes = sizes
        self.fails = []
        self.checked = 0
        self.calls = []
        self._events = []
        self.dims = {}
        self.inputs = {}
        self.tol = contract.tol
        self.assumptions = set()
        self.shaker, self.nums, self.off = None, [], {}

    def shake(self, a):
        """The input, moved in its twelfth digit when the trial asks how sensitive its expected values are."""
        if self.shaker is None:
            return a
        d = 1 + 1e-12 * self.shaker.uniform(-1, 1, a.shape[0])
        return a * d if a.ndim == 1 else a * d[:, None] * (d if a.shape[0] == a.shape[1] else 1)

    @property
    def anp(self):
        import autograd.numpy
        return autograd.numpy

    # -- code
    def mod(self, name):
        import importlib
        importlib.import_module(name.split('.')[0])
        importlib.import_module(name)
        return sys.modules[name]

    def get(self, path):
        m, _, q = path.partition(':')
        o = self.mod(m)
        for p in q.split('.'):
            o = getattr(o, p)
        return o

    def run(self, fn, *a, **k):
        try:
            return Outcome(True, fn(*a, **k))
        except Exception as e:
            return Outcome(False, exc=e)

    # -- inputs
    def odd(self, p=0.45):
        """Whether the next input of a special trial is a degenerate one."""
        return self.sp is not None and self.sp.random() < p

    def dim(self, name):
        v = name if isinstance(name, int) else self.case.get(name, name)
        if isinstance(v, str):
            k = v
            if k not in self.dims:
                h = self.hints.get('dims', {}).get(k)
                self.dims[k] = int(h) if h else int(self.rng.integers(max(2, self.sizes[0]), self.sizes[1]))
            v = self.dims[k]
        return Dimension(name, v)

    def choice(self, name, options):
        h = self.hints.get('choices', {}).get(name)
        i = int(self.rng.integers(len(options)))
        if h is not None:
            for j, o in enumerate(options):
                if repr(o) == h:
                    i = j
        self.inputs[name] = repr(options[i])
        return options[i]

    def scalar(self, name, lo=None, hi=None, pos=False, nonneg=False, isint=False, nonzero=False):
        h = self.hints.get('scalars', {}).get(name)
        r = self.rng
        if h is not None:
            v = float(h)
        elif isint:
            l = 1 if lo is None else int(lo)
            v = int(r.integers(l, (l + 5 if hi is None else int(hi)) + 1))
        elif lo is not None and hi is not None:
            v = float(lo) + (float(hi) - float(lo)) * r.uniform(0.02, 0.98)
        elif lo is not None:
            v = float(lo) + r.exponential(1.0) + 1e-3
        elif pos or nonneg:
            v = r.exponential(1.0) * 0.8 + 0.1
            if hi is not None:
                v = float(hi) * r.uniform(0.15, 1.0)
        else:
            v = r.standard_normal()
        if h is None and not isint and self.odd():
            vs = [1.0, 2.0, 3.0, 0.5, 1e-3, 10.0]
            if not (pos or nonneg or lo is not None):
                vs += [0.0, -1.0, -2.0, -3.0] + ([] if nonzero else [0.0])
            elif not pos and (lo is None or lo <= 0):
                vs += [0.0, 0.0]
            vs = [x for x in vs if (lo is None or x >= lo) and (hi is None or x <= hi)]
            if vs:
                v = vs[int(self.sp.integers(len(vs)))]
                if v == 0.0 and nonzero:
                    v = 1.0
        if isint:
            v = int(round(v))
        else:
            v = float(v)
        self.inputs[name] = v
        return v

    def unit(self, name):
        h = self.hints.get('scalars', {}).get(name)
        if h is not None:
            v = float(h)
        else:
            v = 1.0 if self.rng.random() < 0.3 else float(self.rng.uniform(0.2, 1.0))
        self.inputs[name] = v
        return v

    def _hint(self, name, shape):
        a = self.hints.get('arrays', {}).get(name)
        if a is not None:
            a = self.np.array(a, dtype=float)
            if a.shape == tuple(shape):
                return a
        return None

    def _arr(self, name, shape):
        a = self._hint(name, shape)
        if a is None:
            a = self.rng.standard_normal(shape)
            if self.odd():
                k = int(self.sp.integers(7 if name[0] == 'y' and len(shape) == 1 else 6))
                if k == 0:
                    a[...] = 0.0
                elif k == 6:                    # a measurement far away
                    a = a * 300.0
                elif k == 1:
                    a = self.np.round(a * 1.5) + 0.0
                elif k == 2:
                    a[...] = 1.0
                elif k == 3:
                    a[int(self.sp.integers(shape[0]))] = 0.0
                elif k == 4:
                    a = a * 8.0
                else:
                    a = abs(a)
        a = self.shake(a)
        self.inputs[name] = a.copy()
        return a

    def vector(self, name, n):
        return self._arr(name, (n.n,))

    def matrix(self, name, n, m):
        return self._arr(name, (n.n, m.n))

    def symm(self, name, n, pd=False, psd=False):
        a = self._hint(name, (n.n, n.n))
        if a is None:
            b = self.rng.standard_normal((n.n, n.n + 2))
            if pd or psd:
                a = b @ b.T / n.n + (0.3 * self.np.eye(n.n) if pd else 0)
            else:
                if self.rng.random() < 0.5:
                    a = b @ b.T / n.n + 0.3 * self.np.eye(n.n)
                else:
                    b = b[:, :n.n]
                    a = b + b.T
            if self.odd():
                k = int(self.sp.integers(7))
                eye = self.np.eye(n.n)
                if k == 0:
                    a = eye.copy()
                elif k == 1:
                    a = a * eye
                elif k == 2:
                    a = a * 1e-3
                elif k == 3:
                    a = a * 30.0
                elif k == 4 and psd:
                    a = a * 0.0
                elif k == 5 and psd:
                    v = b[:, :1]
                    a = v @ v.T
                elif k == 4 and pd:
                    a = a + 3.0 * self.np.ones((n.n, n.n))
                elif k == 6:
                    a = a / a.flat[0] if abs(a.flat[0]) > 1e-3 else a
                elif k == 5 and not (pd or psd):
                    # positive diagonal, definite or not
                    a = self.sp.uniform(0.4, 0.97) * self.np.sign(b[:, :n.n] + b[:, :n.n].T)
                    self.np.fill_diagonal(a, 1.0)
                elif not (pd or psd):
                    a = a * 0.0
        a = self.shake((a + a.T) / 2)
        if n.n > 1 and self.odd(0.2):           # symmetric up to rounding only, as computed matrices are
            a[0, -1] *= 1 + 1e-13
        self.inputs[name] = a.copy()
        return a

    def tiny(self, name, n):
        a = self.symm(name, n)
        s = float(self.np.linalg.norm(a, 'nuc'))
        if s >= 1e-10:
            a = a / s * 1e-10 * float(self.rng.choice([0.0, 0.999, self.rng.uniform(0, 0.99)]))
        self.inputs[name] = a.copy()
        return a

    def skew(self, name, n):
        a = self.matrix(name, n, n)
        return a - a.T

    def pd(self, name, n):
        return self.symm(name, n, pd=True)

    def psd(self, name, n):
        return self.symm(name, n, psd=True)

    def gaussian(self, name, n, mode='moment'):
        G = self.mod('StateModel').Gaussian
        if mode == 'moment':
            return G(self.vector(name + '.m', n), self.pd(name + '.P', n))
        return G(precision_mat=self.pd(name + '.L', n), shift_vec=self.vector(name + '.h', n))

    # -- sequences of any length
    def length(self, name, lo=1, most=None):
        """most: the longest that is run (where long runs are too ill-conditioned to compare)."""
        r = self.rng.random()
        if most is not None:
            v = self.inputs[name] = int(self.rng.integers(lo, most + 1))
            return v
        if 'length' in self.hints:
            v = self.inputs[name] = int(self.hints['length']) + int(self.rng.integers(0, 3))
            return v
        hi = 2 if r < 0.15 else 7 if r < 0.8 else 45
        v = self.inputs[name] = int(self.rng.integers(lo, lo + hi))
        return v

    def whole(self, name, lo=0):
        v = self.inputs[name] = lo + int(self.rng.integers(0, 9))
        return v

    def index(self, name, n):
        if n < 1:
            raise Skip('no element')
        v = self.inputs[name] = int(self.rng.integers(0, n))
        return v

    def each(self, name, n):
        """All positions (symbolically: an arbitrary one)."""
        return range(n)

    positions = each

    def sequence(self, name, n, d, row=False):
        r = [self.vector('%s%d' % (name, i), d) for i in range(n)]
        return [x.reshape(1, -1) for x in r] if row else r

    def states(self, name, n, d):
        return [self.gaussian('%s%d' % (name, i), d) for i in range(n)]

    def seq(self, n, fn):
        return [fn(i) for i in range(n)]

    def at(self, xs, i):
        return xs[i] if i >= 0 else None

    def len(self, xs):
        return len(xs)

    def total(self, n, fn):
        return sum(fn(i) for i in range(n))

    def log(self):
        return []

    def recursion(self, name, init, step, like, opaque=False):
        return Recursion(init, step)

    def follows(self, label, value, W, k, part=None):
        want = W.at(k)
        for i, v in enumerate(value):
            self.eq('%s%s' % (label, '' if len(value) == 1 else ' %d' % i if part is None else ': ' + part[i]), v, want[i])

    def func(self, name, n, m, style='vec', uses=('t', 'u')):
        f = FuncC(self.rng, name, n.n, m.n, style, uses)
        return f.degenerate(self.sp) if self.odd(0.6) else f

    def transform(self, name, n, m):
        return TransformC(self, self.rng, name, n.n, m.n)

    def obj(self, **kw):
        return types.SimpleNamespace(**kw)

    def connect(self):
        import sqlite3
        return sqlite3.connect(':memory:', detect_types=sqlite3.PARSE_DECLTYPES)

    # -- observations
    def draws(self):
        return [e for e in self._events if e[0] == 'draw']

    def events(self, *kinds):
        return [e for e in self._events if e[0] in kinds]

    def law(self, label, fn, mean, cov, rows=None):
        np = self.np
        if rows is not None:
            x = np.asarray(fn(6000))
        else:
            x = []
            for _ in range(1500):
                y = np.asarray(fn())
                x.append(y.reshape(-1, y.shape[-1]) if y.ndim else y.reshape(1, 1))
            x = np.concatenate(x)
        mean, cov = np.atleast_1d(mean), np.atleast_2d(cov)
        self.checked += 1
        if x.ndim != 2 or x.shape[1] != mean.size:
            return self.fail(label, 'shape %s' % (x.shape,))
        k = x.shape[0]
        m = x.mean(0)
        S = (x - mean).T @ (x - mean) / k
        sd = np.sqrt(np.diag(cov))
        if np.any(np.abs(m - mean) > 7 * sd / np.sqrt(k) + 1e-9 * (1 + np.abs(mean))):
            return self.fail(label, 'sample mean %s of %d draws, expected %s' % (m.tolist(), k, mean.tolist()))
        bound = 8 * np.sqrt((np.outer(np.diag(cov), np.diag(cov)) + cov ** 2) / k) + 1e-9
        if np.any(np.abs(S - cov) > bound):
            return self.fail(label, 'sample covariance %s of %d draws, expected %s' % (S.tolist(), k, cov.tolist()))
        if rows is not None and k == 6000:
            means = np.array([np.asarray(fn(k)).mean(0) for _ in range(6)] + [m])
            z = (means - mean) * np.sqrt(k) / np.where(sd > 0, sd, 1)
            if np.any((sd > 1e-9 * (1 + np.abs(mean))) & (np.abs(z).max(0) < 1e-3)):
                return self.fail(label, 'the sample mean of %d draws never varies' % k)
        if k > 50:
            # rows at a distance, in the two halves, and mirrored are uncorrelated
            z = (x - mean) / np.where(sd > 0, sd, 1)
            h = k // 2
            pairs = [('%d apart' % d, z[d:], z[:-d]) for d in (1, 2, 3)]
            pairs += [('in the two halves', z[:h], z[h:2 * h]), ('mirrored', z[:h], z[::-1][:h])]
            for what, a, b in pairs:
                for j in range(z.shape[1]):
                    r = np.mean(a * np.roll(b, j, axis=1), axis=0)
                    if np.any(np.abs(r) > 8 / np.sqrt(len(a))):
                        return self.fail(label, 'draws %s are correlated: %s' % (what, r.tolist()))

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        a, b = self.np.asarray(a, dtype=float), self.np.asarray(b, dtype=float)
        return a.shape == b.shape and bool(self.np.allclose(a, b, rtol=1e-9, atol=1e-12))

    def inv(self, a):
        try:
            return self.np.linalg.inv(a)
        except self.np.linalg.LinAlgError:
            raise Skip('expected value not defined')

    def lemma_inverse(self, label, a, b):
        self.eq(label, self.np.asarray(a) @ self.np.asarray(b), self.np.eye(len(a)))

    def is_pd(self, a):
        a = self.np.asarray(a, dtype=float)
        w = self.np.linalg.eigvalsh((a + a.T) / 2)
        if abs(w[0]) < 1e-6 * max(abs(w).max(), 1e-300):
            raise Skip('on the boundary')
        return bool(w[0] > 0)

    def nonsingular(self, a):
        s = self.np.linalg.svd(self.np.asarray(a, dtype=float), compute_uv=False)
        return bool(s[-1] > 1e-12 * s[0])

    def size(self, d):
        return d.n

    def shape(self, x):
        return self.np.shape(x)

    def real(self, x):
        return float(x)

    # -- assertions
    def fail(self, label, detail):
        self.fails.append((label, str(detail)[:1500]))

    def eq(self, label, a, b, tol=None):
        np = self.np
        self.checked += 1
        if a is None or b is None or isinstance(a, (str, bool, type)) or isinstance(b, (str, bool, type)):
            if not (a is b or (a is not None and b is not None and a == b)):
                self.fail(label, '%r against expected %r' % (a, b))
            return
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except Exception as e:
            return self.fail(label, 'not numeric: %r (%s)' % (a, e))
        if x.shape != y.shape:
            return self.fail(label, 'shape %s against expected %s' % (x.shape, y.shape))
        if x.size == 0:
            return
        if not np.all(np.isfinite(y)):
            raise Skip('expected value not finite')
        tol = tol or self.tol
        sc = max(np.max(np.abs(y)), 1e-3)
        self.nums.append(y)
        e = float(np.max(np.abs(x - y))) if np.all(np.isfinite(x)) else float('inf')
        if e > tol * sc:
            self.off[len(self.fails)] = (len(self.nums) - 1, e)
            self.fail(label, 'got %s, expected %s' % (x.tolist(), y.tolist()))

    def true(self, label, cond):
        self.checked += 1
        if not bool(cond):
            self.fail(label, 'false')

    def psd_holds(self, label, a, strict=False):
        np = self.np
        self.checked += 1
        a = np.asarray(a, dtype=float)
        w = np.linalg.eigvalsh((a + a.T) / 2)
        s = max(np.max(np.abs(w)), 1e-12)
        if w[0] < -1e-7 * s or (strict and w[0] <= 0):
            self.fail(label, 'eigenvalues %s' % w.tolist())

    def symmetric(self, label, a):
        self.eq(label, a, self.np.transpose(a))

    def returns(self, label, out):
        self.checked += 1
        if not out.ok:
            self.fail(label, 'raised %s: %s' % (type(out.exc).__name__, out.exc))
        return out.ok

    def raises(self, label, out, exc=None):
        self.checked += 1
        if out.ok:
            self.fail(label, 'returned normally')
        elif exc is not None and not isinstance(out.exc, exc):
            self.fail(label, 'raised %s: %s' % (type(out.exc).__name__, out.exc))

    def regular(self, L):
        if self.np.linalg.norm(self.np.asarray(L, dtype=float), 'nuc') < 1e-6:
            raise Skip('almost flat')

    def assume(self, cond):
        if not bool(cond):
            raise Skip('precondition')

    def note(self, s):
        pass

    def freeze(self, **objs):
        return Frame(self, objs)


def snap(o, seen=None, depth=0):
    np = _np()
    seen = {} if seen is None else seen
    if isinstance(o, np.ndarray):
        return ('arr', o.copy())
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return ('val', o)
    if id(o) in seen:
        return ('ref', id(o))
    seen[id(o)] = o
    if isinstance(o, (list, tuple)):
        return ('seq', type(o), [snap(x, seen, depth + 1) for x in o])
    if isinstance(o, dict):
        return ('map', {k: snap(v, seen, depth + 1) for k, v in o.items()})
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, FuncC, TransformC)):
        return ('is', o)
    d = getattr(o, '__dict__', None)
    if d is not None and depth < 6:
        return ('obj', o, {k: snap(v, seen, depth + 1) for k, v in d.items()})
    return ('is', o)


class Frame(object):
    def __init__(self, ctx, objs):
        self.ctx, self.objs = ctx, objs
        self.snaps = {k: snap(v) for k, v in objs.items()}

    def unchanged(self, label='frame'):
        for k, o in self.objs.items():
            self.cmp('%s: %s unchanged' % (label, k), self.snaps[k], o, set())

    def cmp(self, lab, s, o, seen):
        c, np = self.ctx, _np()
        kind = s[0]
        if kind == 'arr':
            c.checked += 1
            if not isinstance(o, np.ndarray) or o.shape != s[1].shape or not np.array_equal(o, s[1]):
                c.fail(lab, 'was %s, now %s' % (s[1].tolist(), np.asarray(o).tolist() if isinstance(o, np.ndarray) else repr(o)))
        elif kind == 'val':
            c.checked += 1
            if not (o is s[1] or (type(o) is type(s[1]) and o == s[1])):
                c.fail(lab, 'was %r, now %r' % (s[1], o))
        elif kind == 'seq':
            c.checked += 1
            if not isinstance(o, s[1]) or len(o) != len(s[2]):
                return c.fail(lab, 'sequence changed')
            for x, y in zip(s[2], o):
                self.cmp(lab, x, y, seen)
        elif kind == 'map':
            c.checked += 1
            if not isinstance(o, dict) or set(o) != set(s[1]):
                return c.fail(lab, 'keys changed')
            for k in s[1]:
                self.cmp(lab, s[1][k], o[k], seen)
        elif kind == 'obj':
            c.checked += 1
            if o is not s[1]:
                return c.fail(lab, 'replaced')
            if id(o) in seen:
                return
            seen.add(id(o))
            d = o.__dict__
            for k, v in s[2].items():
                if v == ('val', None) and k.startswith('_'):
                    continue
                if k not in d:
                    c.fail(lab, 'attribute %s removed' % k)
                    continue
                self.cmp(lab + ' (.%s)' % k, v, d[k], seen)
        elif kind == 'is':
            c.checked += 1
            if o is not s[1]:
                c.fail(lab, 'replaced')
        elif kind == 'ref':
            c.checked += 1
            if id(o) != s[1]:
                c.fail(lab, 'replaced')


def one(con, case, seed, hints=None, sizes=(1, 4), special=False):
    """One trial; returns (fails, checked, ctx or None).  A trial whose only differences are within what a change of the
    inputs in their twelfth digit makes to the expected values themselves says nothing and counts as skipped."""
    fails, n, c = trial(con, case, seed, hints, sizes, special)
    if fails and len(c.off) == len(fails) and all(e < float('inf') for _, e in c.off.values()):
        np = _np()
        moved = dict.fromkeys(c.off, 0.0)
        for k in range(3):
            o = trial(con, case, seed, hints, sizes, special, shake=k + 1)[2]
            if len(o.nums) != len(c.nums) or any(a.shape != b.shape for a, b in zip(o.nums, c.nums)):
                return fails, n, c
            for j, (i, e) in c.off.items():
                moved[j] = max(moved[j], float(np.max(np.abs(o.nums[i] - c.nums[i]))))
        if all(e <= 100 * moved[j] for j, (i, e) in c.off.items()):
            c.fails, c.rounding = [], True
            return [], 0, c
    return fails, n, c


def trial(con, case, seed, hints=None, sizes=(1, 4), special=False, shake=None):
    np = _np()
    rng = np.random.default_rng(seed)
    np.random.seed(seed & 0xffffffff)
    c = Ctx(case, rng, con, hints, sizes, special)
    if shake is not None:
        c.shaker = np.random.default_rng(shake)
    rec = Recorder(c._events)
    try:
        if con.setup:
            con.setup(c)
        with np.errstate(all='ignore'):
            con.fn(c)
    except Skip:
        return ([], 0, c)
    except Exception as e:
        if isinstance(e, (AttributeError, ImportError)) and innermost(e).startswith(HERE) and not c.fails:
            # the contract names something the code no longer has: not decided, no alarm
            c.missing = '%s: %s' % (type(e).__name__, e)
            return ([], 0, c)
        c.fails.append(('contract runs', ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])))
    finally:
        rec.restore()
    return (c.fails, c.checked, c)


def innermost(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.abspath(tb.tb_frame.f_code.co_filename)


def jsonable(x):
    np = _np()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


def setup_paths():
    sys.path.insert(0, REPO)
    sys.path.insert(1, HERE)
    import warnings
    warnings.simplefilter('ignore')


def seed_of(base, name, ci, i):
    import zlib
    return (zlib.crc32(('%s|%s|%d|%d' % (base, name, ci, i)).encode()) & 0x7fffffff)


def main():
    setup_paths()
    from epv import registry
    if sys.argv[1] == 'replay':
        with open(sys.argv[2]) as f:
            r = json.load(f)
        cons = [c for c in registry.load(r['property']) if c.name == r['contract']]
        fails, n, c = one(cons[0], r['case'], r['seed'], r.get('hints'), tuple(r.get('sizes', (1, 4))), bool(r.get('special')))
        for l, d in fails:
            print('FAILS %s: %s' % (l, d))
        print('%d assertions checked, %d failed' % (n, len(fails)))
        sys.exit(1 if fails else 0)
    prop, seed, factor, outp = sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    hints = []
    only = None
    if len(sys.argv) > 6:
        with open(sys.argv[6]) as f:
            hints = json.load(f)
    import time
    t0 = time.time()
    budget = float(os.environ.get('EPV_CBUDGET', '60'))
    out = {'contracts': [], 'fails': [], 'errors': []}
    cons = registry.load(prop)
    if hints:
        # directed replays: try the counter-models first, then random neighbours of them
        for h in hints:
            con = [c for c in cons if c.name == h['contract']][0]
            if not con.concrete:
                continue
            for i in range(40):
                hh = dict(h.get('hints') or {})
                if 'length' in hh:
                    if i >= 5:
                        break
                    use = hh
                elif i == 0:
                    use = hh
                elif i < 8:
                    use = {'scalars': hh.get('scalars', {}), 'dims': hh.get('dims', {}), 'choices': hh.get('choices', {})}
                elif i < 14:
                    use = {'dims': hh.get('dims', {}), 'choices': hh.get('choices', {})}
                else:
                    use = {}
                s = seed_of(seed, con.name, 900, i)
                fails, n, c = one(con, h['case'], s, use)
                if fails:
                    out['fails'].append({'contract': con.name, 'case': h['case'], 'seed': s, 'hints': use,
                                         'labels': [l for l, _ in fails], 'details': fails[:6],
                                         'inputs': jsonable(c.inputs)})
                    break
                if time.time() - t0 > budget:
                    break
        with open(outp, 'w') as f:
            json.dump(out, f)
        return
    todo = []
    for con in cons:
        if not con.concrete:
            continue
        rec = {'contract': con.name, 'trials': 0, 'checked': 0, 'skipped': 0}
        out['contracts'].append(rec)
        for ci, case in enumerate(con.cases + con.extra):
            todo.append([con, ci, case, rec, max(3, int(con.trials * factor * 1.5)), 0])
    rnd = 0
    while todo:
        # every case gets its first trials before any gets its last
        for w in list(todo):
            con, ci, case, rec, nt, i = w
            if time.time() - t0 > budget:
                for x in todo:
                    x[3]['cut'] = True
                todo = []
                break
            s = seed_of(seed, con.name, ci, i)
            special = i % 2 == 1
            sizes = (1, 4) if i % 4 != 2 else (3, 7)
            fails, n, c = one(con, case, s, None, sizes, special)
            w[5] += 1
            rec['trials'] += 1
            rec['checked'] += n
            if n == 0 and not fails:
                rec['skipped'] += 1
                if getattr(c, 'missing', None):
                    rec['missing'] = c.missing
            if fails:
                out['fails'].append({'contract': con.name, 'case': case, 'seed': s, 'hints': None, 'sizes': sizes, 'special': special,
                                     'labels': [l for l, _ in fails], 'details': fails[:6],
                                     'inputs': jsonable(c.inputs)})
            if fails or w[5] >= nt:
                todo.remove(w)
    with open(outp, 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
