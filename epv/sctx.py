"""Contracts evaluated on the real source with symbolic inputs: the deductive side.

A contract is a Python function of one context argument; the same text runs here (inputs are symbols, every assertion
becomes an obligation discharged by the normal form / the solver) and in cctx.py (inputs are random arrays and the
code is the installed code under its own interpreter)."""
import signal
import time
import types
from fractions import Fraction
from . import core, arr, shim, num, loops, sym as S
from .core import TE, te, ZERO, ONE, HEADS, Dim, Unsupported, EngineSignal, Infeasible
from .arr import Arr, Sc, asarr
from .sym import SymBool, Engine, tobool


class Timeout(EngineSignal):
    pass


_dims = {}


def get_dim(name):
    if name == 1:
        return 1
    d = _dims.get(name)
    if d is None:
        h = shim.fresh_head('#' + name, (), input=True, pos=True, lo=2, isint=True, dimsize=True)
        d = Dim(name, core.atom(h))
        _dims[name] = d
    return d


class Dimension:
    """A dimension of the contract: .n is what the code sees (int or symbolic integer)."""

    def __init__(self, name, v):
        self.name = name
        self.part = v if v == 1 or isinstance(v, Dim) else None
        if isinstance(v, int):
            self.parts = (1,) * v
            self.n = v
        else:
            self.parts = (v,)
            self.n = Sc(v.size, True)


class Outcome:
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc


class Obligation:
    __slots__ = ('contract', 'case', 'label', 'path', 'status', 'how', 'detail', 'hints', 'facts', 'soft')

    def __init__(self, contract, case, label, path):
        self.contract, self.case, self.label, self.path = contract, case, label, path
        self.status = 'open'
        self.how = self.detail = None
        self.hints = None
        self.soft = False


# ------------------------------------------------------------------ function symbols
def _in_axes(x, n):
    """Split an argument into (row axis parts or None, component axis parts)."""
    if x.ndim == 0:
        return None, None
    if x.ndim == 1:
        return None, x.axes[0]
    if x.ndim == 2:
        return x.axes[0], x.axes[1]
    raise Unsupported('function applied to a %d-dimensional array' % x.ndim)


def app_term(name, F, args, extra):
    """Head for component(s) of F at args.  args: TEs over kept id 0 (component of the argument) and row ids;
    F: dict(outdim=Dim or 1, indims=tuple of Dim/1)."""
    d = core.dims_all(args)
    sig = tuple(1 if x == 1 else x.uid for x in (F['outdim'],) + tuple(F['indims']))
    h, slots = core.intern('app', name, tuple(args), d, keep=(0,), extra=extra, key=('app', name, extra, len(args), sig))
    if 'F' not in h.meta:
        od = F['outdim']
        h.dims = h.meta['sdims'] + (() if od == 1 else (od,))
        h.meta.update(F=F, rebuild=app_rebuild, diff=app_diff, evaluate=app_eval)
    return h, slots


def _app(name, F, args, extra, out_id):
    h, slots = app_term(name, F, args, extra)
    s = tuple(slots) + (() if F['outdim'] == 1 else (out_id,))
    return TE(core.norm(1, [(h.uid, s, 1)]))


def app_rebuild(h, args, slots):
    F = h.meta['F']
    nr = len(h.meta['sdims'])
    m = {1 + i: 640 + i for i in range(nr)}
    # component slot id 0 is kept; row slots 1.. become high ids while re-interning
    a = [x.rename(m) for x in args]
    r = _app(h.name, F, a, h.meta['extra'], 660)
    back = {640 + i: slots[i] for i in range(nr)}
    if F['outdim'] != 1:
        back[660] = slots[nr]
    return r.rename(back)


def app_diff(h, s, uid, new, dim, memo):
    F = h.meta['F']
    nr = len(h.meta['sdims'])
    tot = ZERO
    for q, a in enumerate(h.args):
        if not any(core.head_depends(HEADS[u], uid, memo) for u in a.atoms()):
            continue
        # argument with its component index moved to 670, rows to their slots
        b = a.rename({0: 670, **{1 + i: 640 + i for i in range(nr)}})
        b = b.rename({640 + i: s[i] for i in range(nr)})
        da = core.diff(b, uid, new, dim, memo)
        if q >= len(F['indims']):
            raise Unsupported('derivative in an extra argument')
        D = dapp(h, q, s, 670)
        r = D * da
        if F['indims'][q] != 1:
            r = r.contract(670, F['indims'][q])
        tot = tot + r
    return tot


def dapp(h, q, s, in_id):
    F = h.meta['F']
    key = ('dapp', h.uid, q)
    g = core._intern.get(key)
    if g is None:
        idim = F['indims'][q]
        g = core.new_head('D%d%s' % (q, h.name), 'dapp', h.dims + (() if idim == 1 else (idim,)), False, h.args,
                          nk=1, sdims=h.meta['sdims'], app=h.uid, q=q, rebuild=dapp_rebuild, evaluate=dapp_eval,
                          diff=dapp_diff)
        core._intern[key] = g
    return TE(core.norm(1, [(g.uid, tuple(s) + (() if F['indims'][q] == 1 else (in_id,)), 1)]))


def dapp_diff(h, s, uid, new, dim, memo):
    raise Unsupported('second derivative of a function symbol')


def dapp_rebuild(g, args, slots):
    h = HEADS[g.meta['app']]
    F = h.meta['F']
    nr = len(h.meta['sdims'])
    m = {1 + i: 640 + i for i in range(nr)}
    a = [x.rename(m) for x in args]
    h2, sl = app_term(h.name, F, a, h.meta['extra'])
    ss = tuple(sl) + (() if F['outdim'] == 1 else (660,))
    r = dapp(h2, g.meta['q'], ss, 661)
    back = {640 + i: slots[i] for i in range(nr)}
    k = nr
    if F['outdim'] != 1:
        back[660] = slots[k]
        k += 1
    if F['indims'][g.meta['q']] != 1:
        back[661] = slots[k]
    return r.rename(back)


def _fval(model, h):
    """Random smooth function for a symbol: parameters are fixed per (name, extra) in a model."""
    F = h.meta['F']
    key = ('f', F['name'], h.meta['extra'])
    p = model.funcs.get(key)
    if p is None:
        ni = sum(1 if d == 1 else model.size(d) for d in F['indims']) + 8
        no = sum(1 if d == 1 else model.size(d) for d in F['outdims'])
        r = np_rng(model, key)
        p = (r.standard_normal((no, ni)), r.standard_normal((no, ni)) * 0.7, r.standard_normal(no),
             r.standard_normal((no, ni)) * 0.3)
        model.funcs[key] = p
    return p


def np_rng(model, key):
    import numpy as np
    return np.random.default_rng(model.rng.integers(1 << 30))


def _rows(model, h):
    """The argument of an app head as rows: array (rows..., component)."""
    import numpy as np
    F = h.meta['F']
    nr = len(h.meta['sdims'])
    rshape = tuple(model.size(d) for d in h.meta['sdims'])
    cols = []
    for q, a in enumerate(h.args):
        idim = F['indims'][q] if q < len(F['indims']) else 1
        ids = [1 + i for i in range(nr)]
        dims = list(h.meta['sdims'])
        if idim != 1:
            x = model.over(a, ids + [0], dims + [idim])
        else:
            x = model.over(a, ids, dims)[..., None]
        cols.append(np.broadcast_to(x, rshape + (x.shape[-1],)))
    return np.concatenate(cols, axis=-1)


def _outslice(model, F):
    o = 0
    for i, d in enumerate(F['outdims']):
        k = 1 if d == 1 else model.size(d)
        if i == F['outpos']:
            return slice(o, o + k), d == 1
        o += k


def app_eval(model, h):
    import numpy as np
    A, B, c, C = _fval(model, h)
    x = _rows(model, h)
    A, B, C = A[:, :x.shape[-1]], B[:, :x.shape[-1]], C[:, :x.shape[-1]]
    y = np.tanh(x @ B.T + c) + x @ A.T + 0.2 * (x @ C.T) ** 2
    sl, unit = _outslice(model, h.meta['F'])
    y = y[..., sl]
    return y[..., 0] if unit else y


def dapp_eval(model, g):
    import numpy as np
    h = HEADS[g.meta['app']]
    A, B, c, C = _fval(model, h)
    x = _rows(model, h)
    A, B, C = A[:, :x.shape[-1]], B[:, :x.shape[-1]], C[:, :x.shape[-1]]
    z = np.tanh(x @ B.T + c)
    J = (1 - z ** 2)[..., None] * B + A + 0.4 * (x @ C.T)[..., None] * C
    F = h.meta['F']
    sl, unit = _outslice(model, F)
    J = J[..., sl, :]
    o = 0
    for q, d in enumerate(F['indims']):
        k = 1 if d == 1 else model.size(d)
        if q == g.meta['q']:
            J = J[..., o:o + k]
            break
        o += k
    if d == 1:
        J = J[..., 0]
        return J[..., 0] if unit else J
    return J[..., 0, :] if unit else J


class FuncSym:
    """An arbitrary (differentiable) function of rows, with optional time / control arguments."""

    def __init__(self, name, n, m, style, uses=('t', 'u')):
        self.name, self.n, self.m, self.style, self.uses = name, n, m, style, uses
        self.ncalls = 0

    def __call__(self, x, t=None, u=None, **kw):
        return self.at(x, t, u)

    def at(self, x, t=None, u=None):
        a = asarr(x)
        rows, comp = _in_axes(a, self.n)
        if comp is None:
            if self.n.parts == (1,):
                comp = None
            else:
                raise ValueError('scalar argument')
        elif not arr.same_size(arr.axis_size(comp), self.n.n):
            raise ValueError('argument of the wrong size')
        if comp is not None and comp != self.n.parts:
            if all(p == 1 for p in comp) or all(p == 1 for p in self.n.parts):
                pass
            a = arr.repartition(a, a.ndim - 1, self.n.parts)
            rows, comp = _in_axes(a, self.n)
        extra, eargs = [], []
        for k, v in (('t', t), ('u', u)):
            if k not in self.uses:
                continue
            if v is None:
                extra.append(k + '=None')
            elif arr.isnum(v):
                extra.append(k)
                eargs.append(arr.te_of(v))
            elif isinstance(v, Arr) and v.size_is_one():
                extra.append(k)
                eargs.append(v.entry())
            else:
                extra.append(k + '=' + repr(type(v)))
        extra = tuple(extra)
        nd = a.ndim
        indims = tuple(self.n.parts)
        outdims = tuple(self.m.parts)
        bl = {}
        rowparts = rows if rows is not None else (None,)
        for rp, rd in enumerate(rowparts):
            args = []
            for cp, cd in enumerate(indims):
                if comp is None:
                    t_ = a.blocks.get((), ZERO)
                else:
                    pos = (rp, cp) if rows is not None else (cp,)
                    t_ = a.blocks.get(pos, ZERO)
                if rows is not None:
                    t_ = t_.rename({0: 680, 1: 0}) if cd != 1 else t_.rename({0: 680})
                args.append(t_)
            for op, od in enumerate(outdims):
                nm = self.name if len(outdims) == 1 else '%s.%d' % (self.name, op)
                F = {'name': self.name, 'outdim': od, 'indims': indims, 'outdims': outdims, 'outpos': op}
                r = _app(nm, F, args + eargs, extra, 681)
                if rows is not None:
                    bl[(rp, op)] = r.rename({680: 0, 681: 1})
                else:
                    bl[(op,)] = r.rename({681: 0})
        if rows is not None:
            return Arr([rows, outdims], bl)
        r = Arr([outdims], bl)
        if comp is None:
            return r
        if self.style == 'row1':
            return arr.add_axes(r, [0]).detached()
        return r


    def jac(self, x, t=None, u=None):
        """Jacobian (m, n) at the vector x."""
        pr = probe(self.n)
        y = FuncSym(self.name, self.n, self.m, 'vec', self.uses).at(pr, t, u)
        x = asarr(x)
        if tuple(x.axes[0]) != tuple(self.n.parts):
            x = arr.repartition(x, 0, self.n.parts)
        bl = {}
        for i, p in enumerate(self.m.parts):
            for j, q in enumerate(self.n.parts):
                (k, _), = pr.blocks[(j,)].d.items()
                r = core.diff(y.blocks.get((i,), ZERO), k[0][0], 690, q)
                for jj, qq in enumerate(self.n.parts):
                    (k2, _), = pr.blocks[(jj,)].d.items()
                    xt = x.blocks.get((jj,), ZERO)
                    r = core.subst(r, k2[0][0], lambda s, xt=xt, qq=qq: xt.rename({0: s[0]}) if qq != 1 else xt)
                bl[(i, j)] = r.rename({690: 1 if p != 1 or True else 0})
        return Arr([self.m.parts, self.n.parts], bl)


# ------------------------------------------------------------------ arbitrary moment transforms
class TransformSym:
    """An arbitrary moment-matching transform: mean, covariance (symmetric, positive semidefinite) and
    cross-covariance are unknown functions of the mapped function, the state mean and the state covariance."""

    def __init__(self, ctx, name, n, m):
        self.ctx, self.name, self.n, self.m = ctx, name, n, m

    def __call__(self, func, state, *a, **k):
        m0, P = asarr(state.mean), asarr(state.cov)
        pr = probe(self.n)
        y = func(pr)
        y = asarr(y)
        if y.ndim == 2 and y.axes[0] == (1,):
            y = arr.squeeze(y, 0)
        if y.ndim != 1 or not arr.same_size(y.shape[0], self.m.n):
            raise ValueError('function of the wrong output size')
        key = []
        for a_ in (y, m0, P):
            for pos in arr.positions(a_.axes):
                key.append(a_.blocks.get(pos, ZERO))
        sig = (self.name, tuple(1 if p == 1 else p.uid for p in self.n.parts), tuple(1 if p == 1 else p.uid for p in self.m.parts),
               y.ndim, m0.ndim, P.ndim)
        heads = None
        for k0, hs in core._intern.setdefault(('tr',) + sig, []):
            if len(k0) == len(key) and all(core.equal(x, z) for x, z in zip(k0, key)):
                heads = hs
                break
        if heads is None:
            grp = {}
            hs = {}
            for i, p in enumerate(self.m.parts):
                hs['mean', i] = core.new_head('%s.mean' % self.name, 'tr', () if p == 1 else (p,), False, key, grp=grp, part=('mean', i), trd=(self.n.parts, self.m.parts), evaluate=tr_eval)
                for j, q in enumerate(self.m.parts):
                    if j < i:
                        continue
                    dd = tuple(x for x in (p, q) if x != 1)
                    hs['cov', i, j] = core.new_head('%s.cov' % self.name, 'tr', dd, i == j and p != 1, key, grp=grp, part=('cov', i, j), psd=(i == j), nonneg=(i == j and p == 1), trd=(self.n.parts, self.m.parts), evaluate=tr_eval)
                for j, q in enumerate(self.n.parts):
                    dd = tuple(x for x in (q, p) if x != 1)
                    hs['cross', j, i] = core.new_head('%s.cross' % self.name, 'tr', dd, False, key, grp=grp, part=('cross', j, i), trd=(self.n.parts, self.m.parts), evaluate=tr_eval)
            core._intern[('tr',) + sig].append((key, hs))
            heads = hs
        mean = Arr([self.m.parts], {(i,): _at(heads['mean', i], (0,), (p,)) for i, p in enumerate(self.m.parts)})
        cov = Arr([self.m.parts, self.m.parts], {})
        for i, p in enumerate(self.m.parts):
            for j, q in enumerate(self.m.parts):
                h = heads['cov', min(i, j), max(i, j)]
                cov._blocks[(i, j)] = _at(h, (0, 1), (p, q)) if i <= j else _at(h, (1, 0), (q, p))
        cross = Arr([self.n.parts, self.m.parts], {(j, i): _at(heads['cross', j, i], (0, 1), (q, p))
                                                   for i, p in enumerate(self.m.parts) for j, q in enumerate(self.n.parts)})
        self.ctx.calls.append((self.name, m0, P))
        return mean, cov, cross


def _at(h, ids, parts):
    return core.atom(h, *[i for i, p in zip(ids, parts) if p != 1])


def tr_eval(model, h):
    import numpy as np
    grp = h.meta['grp']
    nparts, mparts = h.meta['trd']
    n = sum(1 if p == 1 else model.size(p) for p in nparts)
    m = sum(1 if p == 1 else model.size(p) for p in mparts)
    c = model.funcs.get(('tr', id(grp)))
    if c is None:
        s = 0.0
        for a in h.args:
            fr = sorted(a.free())
            s += float(np.sum(np.sin(model.term(a, fr)))) if a.d else 0.0
        r = np.random.default_rng(abs(hash((round(s, 6), h.name.split('.')[0]))) % (1 << 32))
        L = r.standard_normal((n + m, n + m + 1)) * 0.6
        J = L @ L.T / (n + m)
        c = (r.standard_normal(m), J[n:, n:], J[:n, n:])
        model.funcs[('tr', id(grp))] = c
    w = h.meta['part']

    def sl(parts, i):
        o = sum(1 if p == 1 else model.size(p) for p in parts[:i])
        return o if parts[i] == 1 else slice(o, o + model.size(parts[i]))
    if w[0] == 'mean':
        return c[0][sl(mparts, w[1])]
    if w[0] == 'cov':
        return c[1][sl(mparts, w[1]), sl(mparts, w[2])]
    return c[2][sl(nparts, w[1]), sl(mparts, w[2])]


def law_terms(x, info):
    """Mean and covariance (over two copies of the index positions) of x, affine in the draws in info."""
    nd = x.ndim
    mean, noise = {}, {}
    for pos in arr.positions(x.axes):
        t = x.blocks.get(pos, ZERO)
        mu = t
        for u in sorted(t.atoms()):
            if u in info:
                mu = core.subst(mu, u, lambda s, u=u: draw_mean(info[u], s))
        mean[pos] = mu
        noise[pos] = t - mu if info else ZERO
    C = {}
    for p in arr.positions(x.axes):
        for q in arr.positions(x.axes):
            a, b = noise[p], noise[q].rename({i: nd + i for i in range(nd)})
            acc = ZERO
            # noise = draw part - its mean: only the draw parts are correlated
            for k, v in (drawpart(a, info) * drawpart(b, info)).d.items():
                dr = [f for f in k if f[0] in info]
                if sum(f[2] for f in dr) != 2:
                    raise Unsupported('draws not combined affinely')
                if len(dr) == 1:
                    dr = [(dr[0][0], dr[0][1], 1)] * 2
                rest = [f for f in k if f[0] not in info]
                for w, fs in draw_cov(info, dr[0], dr[1]):
                    acc = acc + TE(core.norm(v * w, rest + fs))
            C[p + q] = acc
    return Arr(list(x.axes), mean), Arr(list(x.axes) * 2, C)


def drawpart(t, info):
    return TE({k: v for k, v in t.d.items() if any(f[0] in info for f in k)})


def draw_mean(inf, slots):
    e, pos = inf
    if e[1] == 'randn':
        return ZERO
    m = e[3]
    t = m.blocks.get((pos[-1],), ZERO)
    return t.rename({0: slots[-1]}) if m.axes[0][pos[-1]] != 1 else t


def draw_cov(info, f, g):
    (e, p), (e2, p2) = info[f[0]], info[g[0]]
    if e is not e2:
        return []
    axes = e[2].axes
    nr = len(axes) - (1 if e[1] == 'mvn' else 0)
    if p[:nr] != p2[:nr]:
        return []

    def slots(pos, s):
        out, it = [], iter(s)
        for ax, q in zip(axes, pos):
            out.append(None if ax[q] == 1 else next(it))
        return out
    s1, s2 = slots(p, f[1]), slots(p2, g[1])
    fs = []
    for r in range(nr):
        if s1[r] is not None:
            fs.append((core.delta_head(axes[r][p[r]]).uid, (s1[r], s2[r]), 1))
    if e[1] != 'mvn':
        return [(1, fs)]
    t = e[4].blocks.get((p[-1], p2[-1]), ZERO)
    m = {}
    if s1[-1] is not None:
        m[0] = s1[-1]
    if s2[-1] is not None:
        m[1] = s2[-1]
    return [(v, fs + fac) for v, fac in core.subst_raw(t, m)]


def probe(n):
    bl = {}
    for i, p in enumerate(n.parts):
        h = shim.fresh_head('_probe%s_%d' % (n.name if p != 1 else '', i), () if p == 1 else (p,), input=True)
        bl[(i,)] = core.atom(h, *(() if p == 1 else (0,)))
    return Arr([n.parts], bl)


# ------------------------------------------------------------------ the context
class Ctx:
    symbolic = True
    np = shim.np
    anp = shim.np
    LinAlgError = arr.LinAlgError

    def __init__(self, case, engine, loader, contract):
        self.case = case
        self.eng = engine
        self.loader = loader
        self.contract = contract
        self.obls = []
        self.inputs = {}
        self.calls = []
        self.world = shim.World.cur
        self.bounded = set()
        self.assumptions = set()
        self.touched = []
        self.scalars_used = {}
        # loop rule
        self.seqs = []           # those sequences, in the order they were made
        self.elements = {}       # objects the code made as elements of a sequence of unknown length
        self.focus = []          # positions the contract will look at
        self.handed = []         # elements of sequences given to the code, with their content
        self.roots = []          # objects of the contract that loops may change
        self.ghosts = []         # components of the registered recursions
        self.recs = {}
        engine.ctx = self

    # -- code
    def mod(self, name):
        self.loader.load(name.split('.')[0])
        return self.loader.load(name)

    def get(self, path):
        m, _, q = path.partition(':')
        o = self.mod(m)
        for p in q.split('.'):
            o = getattr(o, p)
        return o

    def run(self, fn, *a, **k):
        try:
            return Outcome(True, fn(*a, **k))
        except Exception as e:
            return Outcome(False, exc=e)

    # -- inputs
    def dim(self, name):
        v = name if isinstance(name, int) else self.case.get(name, name)
        if isinstance(v, int):
            return Dimension(name, v)
        return Dimension(name, get_dim(v))

    def choice(self, name, options):
        """A discrete input: every option is its own path."""
        for o in options[:-1]:
            if SymBool('opaque', 'choice:%s:%r' % (name, o), ()):
                return o
        return options[-1]

    def scalar(self, name, lo=None, hi=None, pos=False, nonneg=False, isint=False, nonzero=False):
        if name in self.eng.binds:
            v = self.eng.binds[name]
            v = Fraction(v)
            return Sc(te(v), isint)
        meta = dict(input=True, bind=True)
        if lo is not None:
            meta['lo'] = Fraction(lo)
        if hi is not None:
            meta['hi'] = Fraction(hi)
        if pos or (lo is not None and lo > 0):
            meta['pos'] = True
        elif nonneg or (lo is not None and lo == 0):
            meta['nonneg'] = True
        if isint:
            meta['isint'] = True
        h = shim.fresh_head(name, (), **meta)
        t = core.atom(h)
        self.scalars_used[name] = h
        if nonzero:
            self.eng.assume(SymBool('not', S.rel(t, '==')))
        return Sc(t, isint)

    def unit(self, name):
        """A real in (0, 1]."""
        s = self.scalar(name, pos=True, hi=1)
        return s

    def vector(self, name, n):
        return self._arr(name, [n.parts])

    def matrix(self, name, n, m):
        return self._arr(name, [n.parts, m.parts])

    def _arr(self, name, axes, **meta):
        a = shim.fresh_array(name, axes, **meta)
        self.inputs[name] = a
        return a

    def symm(self, name, n, **meta):
        """Symmetric matrix; pd=True / psd=True declare definiteness."""
        parts = n.parts
        bl = {}
        if parts == (1,):
            mm = dict(input=True)
            if meta.get('pd'):
                mm['pos'] = True
            elif meta.get('psd'):
                mm['nonneg'] = True
            bl[(0, 0)] = core.atom(shim.fresh_head(name, (), **mm))
        elif len(parts) == 1:
            h = shim.fresh_head(name, (parts[0], parts[0]), True, input=True, **meta)
            bl[(0, 0)] = core.atom(h, 0, 1)
        else:
            if all(p == 1 for p in parts):
                for i in range(len(parts)):
                    for j in range(len(parts)):
                        a, b = min(i, j), max(i, j)
                        mm = dict(input=True)
                        if i == j and (meta.get('pd') or meta.get('psd')):
                            mm['pos' if meta.get('pd') else 'nonneg'] = True
                        bl[(i, j)] = core.atom(shim.fresh_head('%s_%d%d' % (name, a, b), (), **mm))
            else:
                raise Unsupported('symmetric matrix over a mixed partition')
        a = Arr([parts, parts], bl)
        if meta.get('pd') and len(parts) > 1:
            self.eng.assume(arr.is_pd(a))
        self.inputs[name] = a
        return a

    def tiny(self, name, n):
        """Symmetric with nuclear norm below 1e-10."""
        a = self.symm(name, n)
        self.assume(shim.np.linalg.norm(a, 'nuc') < 1e-10)
        return a

    def skew(self, name, n):
        a = self.matrix(name, n, n)
        return a - shim.np.transpose(a)

    def pd(self, name, n):
        return self.symm(name, n, pd=True)

    def psd(self, name, n):
        return self.symm(name, n, psd=True)

    def gaussian(self, name, n, mode='moment'):
        G = self.mod('StateModel').Gaussian
        if mode == 'moment':
            return G(self.vector(name + '.m', n), self.pd(name + '.P', n))
        return G(precision_mat=self.pd(name + '.L', n), shift_vec=self.vector(name + '.h', n))

    # -- sequences of unknown length
    def length(self, name, lo=1, most=None):
        """A number of elements: any integer from lo."""
        v = self.whole(name, lo)
        return v

    def whole(self, name, lo=0):
        if name in self.eng.binds:
            v = Fraction(self.eng.binds[name])
            if v.denominator != 1 or v < lo:
                raise Infeasible()
            return int(v)
        meta = dict(pos=True) if lo > 0 else dict(nonneg=True)
        h = shim.fresh_head(name, (), input=True, isint=True, index=True, lo=Fraction(lo), bind=True, **meta)
        self.scalars_used[name] = h
        return Sc(core.atom(h), True)

    def index(self, name, n):
        """Any position 0 .. n-1."""
        k = self.whole(name)
        self.assume(k < n)
        return k

    def each(self, name, n):
        """All positions: an arbitrary one stands for them."""
        return [] if loops.yes(S.rel(arr.te_of(n), '==')) else [self.index(name, n)]

    def positions(self, name, n):
        """All positions, named before the code runs: an arbitrary one stands for them."""
        r = self.each(name, n)
        self.focus += [arr.te_of(i) for i in r]
        return r

    def sequence(self, name, n, parts, row=False):
        """n arbitrary vectors."""
        axes = ([(1,)] if row else []) + [parts.parts]
        return loops.SymSeq(arr.te_of(n), lambda i: loops.seq_array(name, axes, i), name)

    def states(self, name, n, parts):
        """n arbitrary Gaussians."""
        G = self.mod('StateModel').Gaussian

        def get(i):
            return G(loops.seq_array(name + '.m', [parts.parts], i), loops.seq_array(name + '.P', [parts.parts] * 2, i, True, pd=True))
        return loops.SymSeq(arr.te_of(n), get, name)

    def seq(self, n, fn):
        """The sequence fn(0), ..., fn(n-1)."""
        return loops.SymSeq(arr.te_of(n), lambda i: fn(loops.num(i)))

    def at(self, xs, i):
        """Element i, known to exist."""
        if isinstance(xs, Arr):
            i = arr.te_of(i)
            v = arr.entry(xs, i)
            return xs[loops.num(i)] if v is None else v
        return loops.as_view(xs).at(arr.te_of(i))

    def len(self, xs):
        return loops.as_view(xs).epv_len()

    def total(self, n, fn):
        """fn(0) + ... + fn(n-1)."""
        return loops.seq_sum(loops.SymSeq(arr.te_of(n), lambda i: fn(loops.num(i))))

    def log(self):
        """A list the contract's own stubs append to."""
        r = loops.TList()
        self.roots.append(r)
        return r

    def recursion(self, name, init, step, like, opaque=False):
        """W(0) = init, W(k+1) = step(k, W(k)).  like: per component a Dimension (vector), (Dimension, 'psd'/'pd'/'sym') or None (scalar)."""
        shapes = []
        for x in like:
            if x is None:
                shapes.append(([], False, {}))
            elif isinstance(x, Dimension):
                shapes.append(([x.parts], False, {}))
            else:
                d, kind = x
                shapes.append(([d.parts, d.parts], True, {} if kind == 'sym' else {kind: True}))
        return loops.Recursion(self, name, init, step, shapes, opaque=opaque)

    def follows(self, label, value, W, k, part=None):
        """value is W(k) (by its own value or by the step from W(k-1))."""
        k = arr.te_of(k)
        for i, v in enumerate(value):
            w = W.at(k)[i]
            for other in (lambda: W.step_to(k), lambda: None):
                if loops.same_num(v, w):
                    break
                r = other()
                if r is not None:
                    w = r[i]
            else:
                v, w = loops.expand(self, v), loops.expand(self, w)
            self.eq('%s%s' % (label, '' if len(value) == 1 else ' %d' % i if part is None else ': ' + part[i]), v, w)

    def func(self, name, n, m, style='vec', uses=('t', 'u')):
        return FuncSym(name, n, m, style, uses)

    def transform(self, name, n, m):
        return TransformSym(self, name, n, m)

    def obj(self, **kw):
        return types.SimpleNamespace(**kw)

    def connect(self):
        """An empty database."""
        return shim.sqlite3.connect(':memory:', detect_types=shim.sqlite3.PARSE_DECLTYPES)

    # -- observations
    def draws(self):
        return [e for e in self.world.events if e[0] == 'draw']

    def events(self, *kinds):
        return [e for e in self.world.events if e[0] in kinds]

    def law(self, label, fn, mean, cov, rows=None):
        """Every row fn() returns is an independent draw from N(mean, cov).  rows: fn takes a number of rows."""
        if rows is not None:
            x = fn(rows)
        else:
            x = fn()
        x, mean, cov = asarr(x), asarr(mean), asarr(cov)
        if self.events('other-generator') or any(e[1] not in ('mvn', 'randn') for e in self.draws()):
            raise Unsupported('law of other draws')
        info = {}
        for e in self.draws():
            for pos, t in e[2].blocks.items():
                (k, _v), = t.d.items()
                info[k[0][0]] = (e, pos)
        m, C = law_terms(x, info)
        self.eq(label + ': mean', m, shim.np.zeros(self.shape(x)) + mean)
        # covariance of two rows i, i': independent, and cov for the same row
        nd = x.ndim
        if nd == 1:
            self.eq(label + ': covariance', C, cov)
        else:
            full = {}
            cv = cov
            if tuple(cov.axes[0]) != tuple(x.axes[1]):
                cv = arr.repartition(arr.repartition(cov, 0, x.axes[1]), 1, x.axes[1])
            for i, p in enumerate(x.axes[0]):
                for a in range(len(x.axes[1])):
                    for b in range(len(x.axes[1])):
                        t = cv.blocks.get((a, b), ZERO).rename({0: 1, 1: 3})
                        full[(i, a, i, b)] = t * core.delta(p, 0, 2) if p != 1 else t
            self.eq(label + ': covariance, independent rows', C, Arr([x.axes[0], x.axes[1], x.axes[0], x.axes[1]], full))

    def same(self, a, b):
        """Equal values (a plain answer, not an obligation)."""
        if a is None or b is None:
            return a is b
        ok, _ = arr.arrays_equal(a, b)
        return ok is True

    def inv(self, a):
        a = asarr(a)
        return arr.m_inverse(a)

    def lemma_inverse(self, label, a, b):
        """Obligation a b = 1; once discharged, the inverse of either is written as the other on this path."""
        a, b = asarr(a), asarr(b)
        n = a.shape[0]
        self.eq(label, shim.np.matmul(a, b), shim.np.eye(n))
        if self.obls[-1].status == 'proved' and len(a.axes[0]) == 1 and a.axes[0][0] != 1:
            core.lemma_inverse(a.blocks[(0, 0)], b.blocks[(0, 0)], a.axes[0][0])

    def is_pd(self, a):
        p = arr.is_pd(asarr(a))
        return bool(p)

    def nonsingular(self, a):
        try:
            arr.require_nonsingular(asarr(a))
            return True
        except arr.LinAlgError:
            return False

    def size(self, d):
        return d.n

    def shape(self, x):
        return asarr(x).shape

    def real(self, x):
        return x

    # -- obligations
    def obl(self, label):
        o = Obligation(self.contract, dict(self.case), label, tuple(self.eng.taken))
        o.facts = list(self.eng.facts)
        self.obls.append(o)
        return o

    def eq(self, label, a, b, tol=None):
        o = self.obl(label)
        if a is None or b is None:
            if a is b:
                o.status, o.how = 'proved', 'structural'
            else:
                o.status, o.how, o.detail = 'refuted', 'structural', 'None against a value'
            return
        if isinstance(a, (str, bool, type)) or isinstance(b, (str, bool, type)):
            o.status = 'proved' if a == b else 'refuted'
            o.how = 'structural'
            o.detail = '%r against %r' % (a, b)
            return
        try:
            ok, det = arr.arrays_equal(a, b)
        except (TypeError, ValueError) as e:
            o.status, o.how, o.detail = 'refuted', 'structural', repr(e)
            o.soft = True
            return
        if ok is None:
            o.status, o.how, o.detail = 'refuted', 'shape', det
            return
        if ok:
            o.status, o.how = 'proved', 'normal form'
            return
        bad, axes = det
        if not axes and len(bad) == 1 and S.rel_known_zero(bad[0][1]):
            o.status, o.how = 'proved', 'linear arithmetic'
            return
        self.refute_eq(o, bad, axes)

    def refute_eq(self, o, bad, axes):
        import numpy as np
        ms = self.models(o.facts)
        o.detail = 'difference: ' + core.show(bad[0][1])
        diff = 0
        for m in ms:
            for pos, d in bad:
                fr = sorted(d.free())
                try:
                    x = np.asarray(m.term(d, fr))
                    mag = np.asarray(m.mag)
                except (num.NoValue, np.linalg.LinAlgError, KeyError):
                    continue
                rel = np.max(np.abs(x)) / (np.max(mag) + 1e-300)
                if rel > 1e-7:
                    diff += 1
                    if o.hints is None:
                        o.hints = self.hints_of(m)
                    break
        if ms and diff:
            o.status, o.how = 'refuted', 'counter-model (%d of %d sampled models of the path)' % (diff, len(ms))
        else:
            o.status = 'open'
            o.how = 'not proved; %d models of the path agree' % len(ms)

    def models(self, facts):
        names = [h.name for h in self.scalars_used.values()] + list(self.inputs)
        return num.sample_models(facts, seed=1, names=names, tries=getattr(self, 'tries', 90))

    def hints_of(self, m):
        hs = {}
        for nme, h in self.scalars_used.items():
            try:
                hs[nme] = float(m.head(h.uid))
            except num.NoValue:
                pass
        for k, v in self.eng.binds.items():
            hs[k] = float(v)
        dims = {}
        for k, d in _dims.items():
            if d.uid in m.sizes:
                dims[k] = m.sizes[d.uid]
        arrs = {}
        for nme, a in self.inputs.items():
            try:
                if all(p == 1 or p.uid in m.sizes for ax in a.axes for p in ax):
                    arrs[nme] = m.array_of(a.axes, a.blocks).tolist()
            except Exception:
                pass
        ch = {}
        for f, v in self.eng.facts:
            if f.kind == 'opaque' and f.a[0].startswith('choice:') and v:
                _, nme, val = f.a[0].split(':', 2)
                ch[nme] = val
        return {'scalars': hs, 'dims': dims, 'arrays': arrs, 'choices': ch}

    def true(self, label, cond):
        o = self.obl(label)
        if isinstance(cond, arr.BArr):
            cond = cond.all()
        if not isinstance(cond, SymBool):
            o.status = 'proved' if cond else 'refuted'
            o.how = 'structural'
            return
        v = self.eng.value(cond)
        if v is None:
            v = self.eng.implied(cond)
        if v is None and cond.kind == 'not':
            w = self.eng.implied(cond.a[0])
            v = None if w is None else not w
        if v is not None:
            o.status, o.how = ('proved' if v else 'refuted'), 'solver'
            return
        ms = self.models(o.facts)
        badm = []
        for m in ms:
            try:
                if not m.holds(cond):
                    badm.append(m)
            except Exception:
                pass
        if badm:
            o.status, o.how, o.hints = 'refuted', 'counter-model', self.hints_of(badm[0])
        else:
            o.how = 'not proved; %d models agree' % len(ms)

    def psd_holds(self, label, a, strict=False):
        o = self.obl(label)
        a = asarr(a)
        m, p = arr.matrix_of(a)
        r = None
        if not isinstance(m[0], TE):
            if len(m) == 1:
                s = self.eng.sign(m[0][0])
                r = s in ('+', '0+', '0') if not strict else s == '+'
                if not r:
                    v = self.eng.implied(S.rel(m[0][0], '<')) if not strict else self.eng.implied(S.rel(-m[0][0], '<'))
                    r = (v is False) if not strict else (v is True)
            elif strict:
                r = bool(self.eng.implied(SymBool('pd', m)))
        else:
            d = S.definite(self.eng, m[0], m[1])
            r = d == 'pd' if strict else d in ('pd', 'psd') or not m[0].d
        if r:
            o.status, o.how = 'proved', 'definiteness rules'
            return
        self._numeric_psd(o, a, strict)

    def _numeric_psd(self, o, a, strict):
        import numpy as np
        ms = self.models(o.facts)
        for mod in ms:
            try:
                x = mod.array_of(a.axes, a.blocks)
                w = np.linalg.eigvalsh((x + x.T) / 2)
                if w[0] < -1e-8 * max(abs(w).max(), 1e-300) or (strict and w[0] <= 0):
                    o.status, o.how, o.hints = 'refuted', 'counter-model', self.hints_of(mod)
                    return
            except Exception:
                continue
        o.how = 'not proved; %d models agree' % len(ms)

    def symmetric(self, label, a):
        self.eq(label, a, shim.np.transpose(asarr(a)))

    def returns(self, label, out):
        o = self.obl(label)
        if out.ok:
            o.status, o.how = 'proved', 'path'
        else:
            o.status, o.how, o.detail = 'refuted', 'exception', '%s: %s' % (type(out.exc).__name__, out.exc)
            o.soft = not isinstance(out.exc, arr.LinAlgError)
            o.hints = self.path_hints(o)
        return out.ok

    def raises(self, label, out, exc=None):
        o = self.obl(label)
        exc = exc or Exception
        if not out.ok and isinstance(out.exc, exc):
            o.status, o.how = 'proved', 'path'
        else:
            ms = self.models(o.facts)
            o.detail = 'returned normally' if out.ok else repr(out.exc)
            if ms:
                o.status, o.how = 'refuted', 'path'
                o.hints = self.hints_of(ms[0])
            else:
                o.how = 'no model of the path found'

    def path_hints(self, o):
        ms = self.models(o.facts)
        if not ms:
            o.status = 'open'
            o.how = 'exception on a path without a sampled model'
            return None
        return self.hints_of(ms[0])

    def regular(self, L):
        """Precondition: the precision L is not the (almost) zero one that stands for the flat Gaussian."""
        nn = shim.np.linalg.norm(asarr(L), 'nuc')
        self.assume(SymBool("not", tobool(nn < Fraction(1, 10 ** 6))))

    def assume(self, cond):
        self.eng.assume(tobool(cond) if not isinstance(cond, SymBool) else cond)

    # -- frames
    def freeze(self, **objs):
        return Frame(self, objs)

    def note(self, s):
        self.assumptions.add(s)


def snap(o, seen=None, depth=0):
    seen = {} if seen is None else seen
    if isinstance(o, Arr):
        return ('arr', o.detached())
    if isinstance(o, (Sc, int, float, str, bool, Fraction, type(None), TE)):
        return ('val', o)
    if id(o) in seen:
        return ('ref', id(o))
    seen[id(o)] = o
    if isinstance(o, (list, tuple)):
        return ('seq', type(o), [snap(x, seen, depth + 1) for x in o])
    if isinstance(o, dict):
        return ('map', {k: snap(v, seen, depth + 1) for k, v in o.items()})
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, FuncSym, TransformSym)):
        return ('is', o)
    d = getattr(o, '__dict__', None)
    if d is not None and depth < 6:
        return ('obj', o, {k: snap(v, seen, depth + 1) for k, v in d.items()})
    return ('is', o)


class Frame:
    """Values at this point; .unchanged(label) later obliges them to be the same (lazily filled caches may fill)."""

    def __init__(self, ctx, objs):
        self.ctx = ctx
        self.objs = objs
        self.snaps = {k: snap(v) for k, v in objs.items()}

    def unchanged(self, label='frame'):
        for k, o in self.objs.items():
            self.cmp('%s: %s unchanged' % (label, k), self.snaps[k], o, set())

    def cmp(self, lab, s, o, seen):
        c = self.ctx
        kind = s[0]
        if kind == 'arr':
            if not isinstance(o, Arr):
                c.eq(lab, None, 1)
                return
            c.eq(lab, o, s[1])
        elif kind == 'val':
            a, b = s[1], o
            if a is None and b is not None:
                return c.eq(lab, None, 1)
            if isinstance(a, (Sc, int, float)) and not isinstance(a, bool) and isinstance(b, (Sc, int, float, Arr)):
                return c.eq(lab, b, a)
            c.true(lab, a is b or (type(a) is type(b) and a == b))
        elif kind == 'seq':
            if not isinstance(o, s[1]) or len(o) != len(s[2]):
                return c.eq(lab, None, 1)
            for x, y in zip(s[2], o):
                self.cmp(lab, x, y, seen)
        elif kind == 'map':
            if not isinstance(o, dict) or set(o) != set(s[1]):
                return c.eq(lab, None, 1)
            for k in s[1]:
                self.cmp(lab, s[1][k], o[k], seen)
        elif kind == 'obj':
            if o is not s[1]:
                return c.eq(lab, None, 1)
            if id(o) in seen:
                return
            seen.add(id(o))
            d = o.__dict__
            for k, v in s[2].items():
                if v == ('val', None) and k.startswith('_'):
                    continue
                if k not in d:
                    c.eq(lab + ' (.%s)' % k, None, 1)
                    continue
                self.cmp(lab + ' (.%s)' % k, v, d[k], seen)
        elif kind == 'is':
            c.true(lab, o is s[1])
        elif kind == 'ref':
            c.true(lab, id(o) == s[1])


# ------------------------------------------------------------------ running a contract
class Result:
    def __init__(self, contract, case):
        self.contract, self.case = contract, case
        self.obls = []
        self.paths = 0
        self.reached = 0
        self.unsupported = None
        self.error = None
        self.time = 0.0
        self.modules = set()
        self.funcs = set()
        self.solver = {}


def _alarm(sig, frm):
    raise Timeout('time limit')


def monitor(res):
    """Names of the repository's functions that are executed symbolically."""
    import sys
    from .load import REPO
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'epv')
    except ValueError:
        return lambda: None

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO) and code.co_name[:1] != '<':
            res.funcs.add(f[len(REPO) + 1:-3].replace('/', '.') + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    mon.restart_events()

    def stop():
        mon.set_events(3, 0)
        mon.free_tool_id(3)
    return stop


def run_case(contract, case, limit=60, max_paths=4000):
    from .load import Loader
    res = Result(contract.name, case)
    stop = monitor(res)
    eng = Engine(max_paths)
    t0 = time.time()

    def body():
        shim.World.cur = shim.World()
        shim._Files.data = {}
        del core.LEMMAS[:]
        shim._Registry.adapters = {}
        L = Loader()
        c = Ctx(case, eng, L, contract.name)
        if contract.setup:
            contract.setup(c)
        contract.fn(c)
        if not all(loops.unmodified(rec) for _v, rec in c.handed if loops.element(_v) is None):
            raise Unsupported('an element of a sequence of unknown length is modified')
        for o in c.obls:
            o.soft = o.soft or contract.soft
        res.modules |= set(L.mods)
        return c
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        while True:
            try:
                for c in eng.paths(body):
                    res.paths += 1
                    res.obls += c.obls
                    if c.obls:
                        res.reached += 1
                    res.assumptions = getattr(res, 'assumptions', set()) | getattr(c, 'assumptions', set())
                break
            except core.Restart:
                res.paths, res.reached, res.obls = 0, 0, []
                res.restarts = getattr(res, 'restarts', 0) + 1
                if res.restarts > 300:
                    raise Unsupported('no stable loop templates')
    except Unsupported as e:
        res.unsupported = str(e) or 'unsupported'
    except Timeout:
        res.unsupported = 'time limit of %d s' % limit
    except RecursionError:
        res.unsupported = 'recursion limit'
    except Exception as e:      # raised by the contract itself (e.g. the code lost an attribute)
        import traceback
        res.error = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        res.unsupported = '%s: %s' % (type(e).__name__, e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        stop()
    res.cuts = set(eng.cuts)
    res.time = time.time() - t0
    res.solver = {'z3_calls': eng.z3_calls, 'z3_seconds': round(eng.z3_time, 3), 'symbolic_seconds': round(res.time, 3)}
    return res
