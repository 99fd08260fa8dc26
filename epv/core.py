"""Term language of the verifier: real expressions over arrays of symbolic size, in index notation.

A term (TE) is a finite sum  sum_j  c_j * prod_k  A_k[slots]^e  with rational coefficients.  Every atom ("head")
is an array-valued symbol whose slots are filled with indices.  Indices are integers:
    0 .. 999           free indices (axis positions, template slots)
    1000 .. 2^20-1     free "point" indices (the generic element of a sequence of unknown length)
    2^20 ..            bound indices; a bound index is summed over its whole range
An index may carry a cyclic offset (x[i+1]) encoded in the high bits.

Two terms are compared by a normal form (commutativity, canonical names of bound indices, elimination of Kronecker
deltas, Cholesky / inverse / square-root / sin^2+cos^2 rules); an atom with arguments (cos(...), inv(...), f(...)) is
interned up to provable equality of its arguments.  Real arithmetic is mathematical: no rounding.
"""
import itertools
from fractions import Fraction

BB = 1 << 20          # canonical bound indices start here
TB = 1 << 24          # temporary bound indices
OFF = 1 << 40         # offsets
PT = 1000             # point indices start here


class EngineSignal(BaseException):
    """Base of everything the engine throws through the code under verification."""


class Unsupported(EngineSignal):
    """The code uses something the term language cannot express: the function is not decided here."""


class EndPath(EngineSignal):
    """The step path of a loop ends here (obls: what it proved)."""
    obls = ()


class Restart(EngineSignal):
    """A loop template was weakened: the whole exploration starts over."""


class Defer(EngineSignal):
    """This path needs what another path learns: run it last."""


class Infeasible(EngineSignal):
    """The current path contradicts its own path condition."""


def base(s):
    return s & (OFF - 1)


def off(s):
    return s >> 40


def isb(s):
    return base(s) >= BB


def shift(s, k):
    return s + k * OFF


class Dim:
    """A symbolic axis length (>= 2).  size is a TE without indices."""
    __slots__ = ('name', 'size', 'uid')
    _all = []

    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.uid = len(Dim._all) + 10      # never 1: a unit axis
        Dim._all.append(self)

    def __repr__(self):
        return 'Dim(%s)' % self.name


class Head:
    __slots__ = ('uid', 'name', 'kind', 'dims', 'sym', 'args', 'meta')

    def __repr__(self):
        return '%s#%d' % (self.name, self.uid)


HEADS = []
_intern = {}
_interned = {}


def new_head(name, kind, dims=(), sym=False, args=(), **meta):
    h = Head()
    h.uid = len(HEADS)
    h.name, h.kind, h.dims, h.sym, h.args, h.meta = name, kind, tuple(dims), sym, tuple(args), meta
    HEADS.append(h)
    return h


_tmp = itertools.count(TB)


class TE:
    __slots__ = ('d', '_h')

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._h = None

    # -- ring operations
    def __add__(self, o):
        o = te(o)
        if not o.d:
            return self
        if not self.d:
            return o
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for k, v in b.items():
            s = r.get(k, 0) + v
            if s:
                r[k] = s
            else:
                r.pop(k, None)
        return TE(r)
    __radd__ = __add__

    def __neg__(self):
        return TE({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-te(o))

    def __rsub__(self, o):
        return te(o) - self

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return TE({k: v * c for k, v in self.d.items()})

    def __mul__(self, o):
        o = te(o)
        if not self.d or not o.d:
            return ZERO
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        acc = {}
        for kb, vb in o.d.items():
            fb = rename_apart(kb)
            for ka, va in self.d.items():
                add_into(acc, norm(va * vb, list(ka) + fb))
        return TE(acc)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * recip(te(o))

    def __rtruediv__(self, o):
        return te(o) * recip(self)

    def __pow__(self, k):
        if k == 0:
            return ONE
        if k < 0:
            return recip(self ** (-k))
        r = self
        for _ in range(k - 1):
            r = r * self
        return r

    def const(self):
        """The rational value when the term is a constant, else None."""
        if not self.d:
            return 0
        if len(self.d) == 1:
            v = self.d.get(())
            if v is not None:
                return v
        return None

    def free(self):
        s = set()
        for k in self.d:
            for (_, slots, _e) in k:
                for x in slots:
                    b = base(x)
                    if b < BB:
                        s.add(b)
        return s

    def rename(self, m):
        """Rename free indices (simultaneously).  Values may carry offsets."""
        if not m or not self.d:
            return self
        acc = {}
        for k, v in self.d.items():
            fs = []
            ch = False
            for (u, slots, e) in k:
                ns = tuple((m[base(x)] + off(x) * OFF) if base(x) in m else x for x in slots)
                if ns != slots:
                    ch = True
                fs.append((u, ns, e))
            if ch:
                add_into(acc, norm(v, fs))
            else:
                add_into(acc, {k: v})
        return TE(acc)

    def contract(self, i, dim):
        """Sum over the free index i, which ranges over dim."""
        acc = {}
        for k, v in self.d.items():
            t = next(_tmp)
            seen = False
            fs = []
            for (u, slots, e) in k:
                ns = tuple((t + off(x) * OFF) if base(x) == i else x for x in slots)
                if ns != slots:
                    seen = True
                fs.append((u, ns, e))
            if seen:
                add_into(acc, norm(v, fs))
            else:
                add_into(acc, (TE({k: v}) * dim.size).d)
        return TE(acc)

    def atoms(self):
        return {u for k in self.d for (u, _s, _e) in k}

    def __repr__(self):
        return show(self)


def add_into(acc, d):
    for k, v in d.items():
        s = acc.get(k, 0) + v
        if s:
            acc[k] = s
        else:
            acc.pop(k, None)


ZERO = TE({})
ONE = TE({(): 1})


def rat(x):
    """Exact rational reading of a Python number (decimal literals and simple fractions are recovered)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        if x == int(x):
            return int(x)
        f = Fraction(x).limit_denominator(10 ** 6)
        if float(f) == x:
            return f
        return Fraction(repr(x))
    raise Unsupported('number %r' % (type(x),))


def te(x):
    if isinstance(x, TE):
        return x
    c = rat(x)
    return TE({(): c}) if c else ZERO


def rename_apart(k, keep=()):
    m = {}
    fs = []
    for (u, slots, e) in k:
        ns = []
        for x in slots:
            b = base(x)
            if b >= BB and b not in keep:
                if b not in m:
                    m[b] = next(_tmp)
                ns.append(m[b] + off(x) * OFF)
            else:
                ns.append(x)
        fs.append((u, tuple(ns), e))
    return fs


def atom(h, *slots):
    return TE(norm(1, [(h.uid, tuple(slots), 1)]))


# ------------------------------------------------------------------ special heads
_delta = {}


def delta_head(dim):
    h = _delta.get(dim.uid)
    if h is None:
        h = new_head('delta_' + dim.name, 'delta', (dim, dim), True)
        _delta[dim.uid] = h
    return h


def delta(dim, i, j):
    return TE(norm(1, [(delta_head(dim).uid, (i, j), 1)]))


def slot_dim(u, q):
    return HEADS[u].dims[q]


# ------------------------------------------------------------------ normalisation of one monomial
_canon_memo = {}


def norm(coef, factors):
    """Normal form of coef * prod(factors): dict monomial -> coefficient."""
    d = {}
    for (u, s, e) in factors:
        h = HEADS[u]
        if h.sym and len(s) == 2 and s[0] > s[1]:
            s = (s[1], s[0])
        d[(u, s)] = d.get((u, s), 0) + e
    # Kronecker deltas
    changed = True
    while changed:
        changed = False
        for (u, s), e in list(d.items()):
            if e == 0:
                del d[(u, s)]
                continue
            h = HEADS[u]
            if h.kind != 'delta':
                continue
            i, j = s
            if i == j:
                del d[(u, s)]
                changed = True
                if isb(i) and not any(base(i) in map(base, s2) for (_u2, s2) in d):
                    return (TE(norm(coef, [(a, b, c) for (a, b), c in d.items()])) * h.dims[0].size).d
                break
            if off(i) or off(j):
                if base(i) == base(j):
                    return {}                       # x != x + k  (cyclic length exceeds the offsets: assumption)
                raise Unsupported('shifted delta')
            src = dst = None
            if isb(j):
                src, dst = j, i
            elif isb(i):
                src, dst = i, j
            if src is not None:
                del d[(u, s)]
                d = _replace(d, src, dst)
                changed = True
                break
            # both free: use the smaller index in the other factors
            d[(u, s)] = 1
            lo, hi = min(i, j), max(i, j)
            rest = {k: v for k, v in d.items() if k != (u, s)}
            if any(hi in map(base, k[1]) for k in rest):
                rest = _replace(rest, hi, lo)
                rest[(u, s)] = rest.get((u, s), 0) + 1
                d = rest
                changed = True
                break
    # exponent rules of single atoms
    for (u, s), e in d.items():
        h = HEADS[u]
        r = EXP_RULE.get(h.kind)
        if r is not None:
            out = r(h, s, e)
            if out is not None:
                rest = [(a, b, c) for (a, b), c in d.items() if (a, b) != (u, s)]
                return mul_raw(coef, rest, out, s)
    # contraction rules
    if any(HEADS[u].kind in ('chol', 'cholinv', 'inv') for (u, _s) in d):
        out = contraction_rules(coef, d)
        if out is not None:
            return out
    return {canon(tuple((u, s, e) for (u, s), e in d.items())): coef}


def mul_raw(coef, rest, t, slots):
    """coef * prod(rest) * t;  t may mention the (possibly bound) indices in slots, its other bound ones are its own."""
    keep = {base(x) for x in slots}
    acc = {}
    for k, v in t.d.items():
        add_into(acc, norm(coef * v, rest + rename_apart(k, keep)))
    return acc


def subst_raw(t, m):
    """Copy of t as raw factor lists with free ids renamed to arbitrary (also bound) ids."""
    out = []
    for k, v in t.d.items():
        fs = []
        for (u, slots, e) in rename_apart(k):
            fs.append((u, tuple((m[base(x)] + off(x) * OFF) if base(x) in m else x for x in slots), e))
        out.append((v, fs))
    return out


def mul_template(coef, rest, t, m):
    acc = {}
    for v, fs in subst_raw(t, m):
        add_into(acc, norm(coef * v, rest + fs))
    return acc


def _replace(d, src, dst):
    out = {}
    for (u, s), e in d.items():
        ns = tuple((dst + off(x) * OFF) if base(x) == src else x for x in s)
        if HEADS[u].sym and len(ns) == 2 and ns[0] > ns[1]:
            ns = (ns[1], ns[0])
        out[(u, ns)] = out.get((u, ns), 0) + e
    return out


def canon(fs):
    """Canonical bound-index names for a monomial (tuple of (uid, slots, exp))."""
    bound = []
    seen = set()
    for (u, s, e) in fs:
        for x in s:
            b = base(x)
            if b >= BB and b not in seen:
                seen.add(b)
                bound.append(b)
    if not bound:
        return tuple(sorted(fs))
    m = {b: BB + i for i, b in enumerate(bound)}
    fs = tuple(sorted(_ren(fs, m)))
    r = _canon_memo.get(fs)
    if r is None:
        r = _canon(fs, list(m.values()))
        _canon_memo[fs] = r
    return r


def _ren(fs, m):
    out = []
    for (u, s, e) in fs:
        if s:
            s = tuple((m[base(x)] + off(x) * OFF) if base(x) in m else x for x in s)
            if len(s) == 2 and s[0] > s[1] and HEADS[u].sym:
                s = (s[1], s[0])
        out.append((u, s, e))
    return out


def _refine(fs, color):
    occ = {b: [] for b in color}
    while True:
        sig = {b: [] for b in color}
        for (u, s, e) in fs:
            sym = HEADS[u].sym
            bs = [base(x) for x in s]
            if not any(b in color for b in bs):
                continue
            desc = [((1, color[b]) if b in color else (0, b), off(x)) for b, x in zip(bs, s)]
            for q, b in enumerate(bs):
                if b in color:
                    if sym:
                        other = desc[1 - q] if len(desc) == 2 else ()
                        same = (len(bs) == 2 and bs[0] == bs[1])
                        sig[b].append((u, e, -1, off(s[q]), same, other))
                    else:
                        eq = tuple(bb == b for bb in bs)
                        sig[b].append((u, e, q, off(s[q]), eq, tuple(desc)))
        keys = {b: (color[b], tuple(sorted(sig[b], key=repr))) for b in color}
        order = sorted(set(keys.values()), key=repr)
        rank = {k: i for i, k in enumerate(order)}
        new = {b: rank[keys[b]] for b in color}
        if len(set(new.values())) == len(set(color.values())):
            return new
        color = new


def _canon(fs, bound):
    best = [None, 0]

    def rec(color):
        color = _refine(fs, color)
        classes = {}
        for b, c in color.items():
            classes.setdefault(c, []).append(b)
        tied = [(c, v) for c, v in sorted(classes.items()) if len(v) > 1]
        if not tied:
            order = sorted(color, key=lambda b: color[b])
            m = {b: BB + i for i, b in enumerate(order)}
            key = tuple(sorted(_ren(fs, m)))
            if best[0] is None or key < best[0]:
                best[0] = key
            best[1] += 1
            if best[1] > 5000:
                raise Unsupported('canonical labelling too large')
            return
        c, members = min(tied, key=lambda cv: (len(cv[1]), cv[0]))
        for b in members:
            c2 = {x: 2 * v for x, v in color.items()}
            c2[b] = 2 * c - 1
            rec(c2)

    rec({b: 0 for b in bound})
    return best[0]


# ------------------------------------------------------------------ rules
def _sqrt_rule(h, s, e):
    if e in (0, 1):
        return None
    q, r = divmod(e, 2)
    arg = h.args[0].rename({i: x for i, x in enumerate(s)}) if not any(isb(x) for x in s) else None
    if arg is None:
        # bound slots: keep the raw form through a template product
        if q < 0:
            return None
        t = h.args[0] ** q
        return _raw_te(t, s, h.uid, r)
    t = (arg ** q) if q >= 0 else recip(arg ** (-q))
    if r:
        t = t * TE({((h.uid, s, 1),): 1})
    return t


def _raw_te(t, s, uid, r):
    d = {}
    for v, fs in subst_raw(t, {i: x for i, x in enumerate(s)}):
        k = tuple(fs) + (((uid, s, r),) if r else ())
        d[k] = d.get(k, 0) + v
    return TE(d)


def _sin_rule(h, s, e):
    if e < 2:
        return None
    c, cs = fn_like(h, s, 'cos')
    t = TE({(): 1, ((c.uid, cs, 2),): -1})
    return t if e == 2 else TE({((h.uid, s, e - 2),): 1, tuple(sorted([(h.uid, s, e - 2), (c.uid, cs, 2)])): -1})


def _recip_rule(h, s, e):
    if e > 0:
        return None
    if any(isb(x) for x in s):
        return _raw_te(h.args[0] ** (-e), s, h.uid, 0)
    return h.args[0].rename({i: x for i, x in enumerate(s)}) ** (-e)


EXP_RULE = {'sqrt': _sqrt_rule, 'sin': _sin_rule, 'recip': _recip_rule}


def fn_like(h, s, name):
    """The atom name(args of h) at the slots s of an atom of h; returns (head, slots)."""
    g, order = intern(name, name, h.args, dict(enumerate(h.meta['sdims'])), meta={'fn': True}, key=('fn', name))
    g.dims = g.meta['sdims']
    return g, tuple(s[i] for i in order)


def contraction_rules(coef, d):
    items = list(d.items())
    occ = {}
    for (u, s), e in items:
        for x in s:
            b = base(x)
            if b >= BB:
                occ[b] = occ.get(b, 0) + abs(e)
    for a in range(len(items)):
        (u, s), e = items[a]
        h = HEADS[u]
        if h.kind in ('chol', 'cholinv') and e >= 1:
            q = 1 if h.kind == 'chol' else 0          # L_ik L_jk = P_ij ;  M_ki M_kj = inv(P)_ij
            k = s[q]
            if isb(k) and occ[base(k)] == 2 and s[0] != s[1]:
                for b in range(a, len(items)):
                    (u2, s2), e2 = items[b]
                    if b == a and e != 2:
                        continue
                    if u2 == u and s2[q] == k and (b == a or (e == 1 and e2 == 1)):
                        i, j = s[1 - q], s2[1 - q]
                        rest = [(x, y, z) for t, ((x, y), z) in enumerate(items) if t not in (a, b)]
                        t = h.args[0] if h.kind == 'chol' else inverse(h.args[0], h.dims[0])
                        return mul_template(coef, rest, t, {0: i, 1: j})
        if h.kind == 'cholinv' and e == 1:
            L = h.meta['chol']
            for b in range(len(items)):
                (u2, s2), e2 = items[b]
                if u2 == L and e2 == 1 and b != a:
                    for (qa, qb) in ((1, 0), (0, 1)):
                        if isb(s[qa]) and s[qa] == s2[qb] and occ[base(s[qa])] == 2:
                            rest = [(x, y, z) for t, ((x, y), z) in enumerate(items) if t not in (a, b)]
                            dh = delta_head(h.dims[0])
                            return norm(coef, rest + [(dh.uid, (s[1 - qa], s2[1 - qb]), 1)])
        if h.kind == 'inv' and e == 1 and len(h.args[0].d) == 1:
            out = inv_contract(coef, items, a, occ, 0)
            if out is not None:
                return out
    return None


def inv_contract(coef, items, a, occ, lead):
    """Rewrite inv(T) against the lead-th monomial of T inside one monomial; None when it does not match."""
    (u, s), e = items[a]
    h = HEADS[u]
    T = h.args[0]
    monos = list(T.d.items())
    lk, lv = monos[lead]
    scal = [f for f in lk if not f[1]]
    pat = [f for f in lk if f[1]]
    others = [(k, v) for i, (k, v) in enumerate(monos) if i != lead]
    dim = h.dims[0]
    for q in ((1, 0)):
        b = s[q]
        if not isb(b):
            continue
        variants = [(0, 1)] if q == 1 else [(1, 0)]
        if h.sym:
            variants = [(0, 1), (1, 0)]
        for (pb, py) in variants:
            m = match(pat, items, a, {pb: b}, py, occ, None if joined(pat) else s[1 - q])
            if m is None:
                continue
            used, y = m
            rest = [(x, z, w) for t, ((x, z), w) in enumerate(items) if t not in used and t != a]
            other = s[1 - q]
            inv_sc = [(f[0], f[1], -f[2]) for f in scal]
            dh = delta_head(dim)
            acc = norm(coef / Fraction(lv), rest + inv_sc + [(dh.uid, (other, y), 1)])
            if others:
                acc = dict(acc)
                nb = next(_tmp)
                ninv = (u, (other, nb), 1) if q == 1 else (u, (nb, other), 1)
                for k, v in others:
                    for v2, fs in subst_raw(TE({k: v}), {pb: nb, py: y}):
                        add_into(acc, norm(-coef * Fraction(v2) / Fraction(lv), rest + inv_sc + [ninv] + fs))
            return acc
    return None


def joined(pat):
    """Are the two free indices of a pattern connected through its factors?"""
    ids, todo = {0}, True
    while todo:
        todo = False
        for (_u, s, _e) in pat:
            b = {base(x) for x in s}
            if b & ids and not b <= ids:
                ids |= b
                todo = True
    return 1 in ids


def match(pat, items, skip, bind, py, occ, avoid=None):
    """Find the factors of pat among items (not index skip).  bind: pattern free index -> id.  Returns (used, y).
    avoid: an id the second free index must not take (an outer product closed into a trace gains nothing)."""
    b0 = list(bind.values())[0]

    def rec(i, bind, used):
        if i == len(pat):
            if py not in bind or (avoid is not None and bind[py] == avoid):
                return None
            # bound pattern indices and the joining index must not occur elsewhere
            cnt = {}
            for t in used:
                (u, s), e = items[t]
                for x in s:
                    cnt[base(x)] = cnt.get(base(x), 0) + abs(e)
            for p, x in bind.items():
                if p == py:
                    continue
                want = cnt.get(x, 0) + (1 if x == b0 else 0)
                if occ.get(x, 0) != want:
                    return None
            vals = [x for p, x in bind.items() if p != py]
            if len(set(vals)) != len(vals) or bind[py] in vals:
                return None
            return used, bind[py]
        (u, s, e) = pat[i]
        for t, ((u2, s2), e2) in enumerate(items):
            if t == skip or t in used or u2 != u or e2 != e:
                continue
            orders = [s2]
            if HEADS[u].sym and len(s2) == 2:
                orders.append((s2[1], s2[0]))
            for so in orders:
                nb = dict(bind)
                ok = True
                for p, x in zip(s, so):
                    if off(p) or off(x):
                        ok = False
                        break
                    p = base(p)
                    if p in nb:
                        if nb[p] != x:
                            ok = False
                            break
                    else:
                        if p != py and not isb(x):
                            ok = False
                            break
                        nb[p] = x
                if ok:
                    r = rec(i + 1, nb, used | {t})
                    if r is not None:
                        return r
        return None

    # start from the factor that holds the joining index
    return rec(0, dict(bind), frozenset())


# ------------------------------------------------------------------ atoms with arguments
def template(args, keep=()):
    """Rename the free indices of args (tuple of TE) to slots; ids in keep stay.  Returns (templates, slots)."""
    fr = set()
    for a in args:
        fr |= a.free()
    fr -= set(keep)
    slots = sorted(fr)
    return slots


def intern(kind, name, args, dims_of, keep=(), sym=False, extra=(), meta=None, key=None):
    """Intern the atom name(args); returns (head, slot ids).  dims_of: free id -> Dim."""
    slots = template(args, keep)
    nk = len(keep)
    bucket = _intern.setdefault(key or (kind, name, len(args)), [])
    # two-step renaming through high ids so that kept ids never clash
    def inst(order):
        m = {s: 500 + i for i, s in enumerate(order)}
        return tuple(a.rename(m).rename({500 + i: nk + i for i in range(len(order))}) for a in args)
    canon_args = inst(slots)
    # what was found for exactly these arguments before: a head and its order of slots, or how far the bucket was searched
    ck = (id(bucket), nk, tuple(extra), tuple(id(dims_of.get(s)) for s in slots), tuple(frozenset(a.d.items()) for a in canon_args))
    at = 0
    known = _interned.get(ck)
    if known is not None:
        if known[0] is not None:
            return known[0], [slots[p] for p in known[1]]
        at = known[2]
    for h in bucket[at:]:
        if len(h.args) != len(args) or h.meta.get('nk', 0) != nk or len(h.meta['sdims']) != len(slots):
            continue
        if h.meta.get('extra', ()) != tuple(extra):
            continue
        for perm in (itertools.permutations(range(len(slots))) if len(slots) <= 3 else [tuple(range(len(slots)))]):
            order = [slots[p] for p in perm]
            if any(h.meta['sdims'][i] is not dims_of.get(order[i]) for i in range(len(order))):
                continue
            cand = inst(order) if order != slots else canon_args
            if all(equal(x, y) for x, y in zip(h.args, cand)):
                _interned[ck] = (h, tuple(perm), 0)
                return h, order
    sd = tuple(dims_of.get(s) for s in slots)
    m = dict(meta or {})
    m.update(nk=nk, sdims=sd, extra=tuple(extra))
    h = new_head(name, kind, (), sym, canon_args, **m)
    bucket.append(h)
    _interned[ck] = (h, tuple(range(len(slots))), 0)
    return h, slots


def dims_in(t):
    """free id -> Dim for the free indices of t."""
    out = {}
    for k in t.d:
        for (u, s, e) in k:
            h = HEADS[u]
            for q, x in enumerate(s):
                b = base(x)
                if b < BB and b not in out and q < len(h.dims):
                    out[b] = h.dims[q]
    return out


def dims_all(args):
    out = {}
    for a in args:
        out.update(dims_in(a))
    return out


def content(t):
    """(common scalar factors {head uid: exponent}, |leading coefficient|) of a term."""
    common = None
    for k in t.d:
        f = {u: e for (u, s, e) in k if not s}
        common = f if common is None else {a: min(common.get(a, 0), f.get(a, 0)) for a in set(common) | set(f)}
    return {a: e for a, e in (common or {}).items() if e}, abs(leading(t)[1]) if t.d else 1


def leading(t):
    k = min(t.d)
    return k, t.d[k]


def recip(t):
    """1/t (elementwise; the caller guarantees or assumes t != 0)."""
    t = te(t)
    if not t.d:
        raise ZeroDivisionError('division by zero')
    if len(t.d) == 1:
        (k, v), = t.d.items()
        if not any(isb(x) for (_u, s, _e) in k for x in s) and not any(HEADS[u].kind == 'delta' for (u, _s, _e) in k):
            return TE(norm(1 / Fraction(v), [(u, s, -e) for (u, s, e) in k]))
        if len(k) > 1:
            # pull out the factors without bound indices
            bs = [f for f in k if any(isb(x) for x in f[1])]
            fs = [f for f in k if f not in bs]
            if fs and not any(HEADS[u].kind == 'delta' for (u, _s, _e) in k):
                return TE(norm(1 / Fraction(v), [(u, s, -e) for (u, s, e) in fs])) * recip(TE({canon(tuple(bs)): 1}))
    # content: leading coefficient and common scalar factors
    ks = list(t.d)
    common = None
    for k in ks:
        f = {(u, s): e for (u, s, e) in k if not any(isb(x) for x in s) and HEADS[u].kind != 'delta'}
        if common is None:
            common = f
        else:
            common = {a: min(common.get(a, 0), f.get(a, 0)) for a in set(common) | set(f)}
    common = {a: e for a, e in common.items() if e}
    if common:
        m = TE(norm(1, [(u, s, -e) for (u, s), e in common.items()]))
        t2 = t * m
        return recip(t2) * m
    c = leading(t)[1]
    if c != 1:
        t = t.scale(1 / Fraction(c))
    h, slots = intern('recip', 'recip', (t,), dims_in(t))
    h.dims = h.meta['sdims']
    return TE({canon(((h.uid, tuple(slots), 1),)): 1 / Fraction(c)})


def sqrt(t):
    t = te(t)
    c = t.const()
    if c is not None:
        c = Fraction(c)
        if c < 0:
            raise Unsupported('sqrt of a negative constant')
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return te(Fraction(a, b))
    # pull out even powers of factors known positive, and square rational content
    if len(t.d) == 1:
        (k, v), = t.d.items()
        if not any(isb(x) for (_u, s, _e) in k for x in s):
            outf, inf = [], []
            for (u, s, e) in k:
                q, r = divmod(e, 2)
                if q and positive_head(HEADS[u]):
                    outf.append((u, s, q))
                    if r:
                        inf.append((u, s, r))
                else:
                    inf.append((u, s, e))
            if outf:
                return TE(norm(1, outf)) * sqrt(TE(norm(v, inf)))
    return _fn('sqrt', t)


def positive_head(h):
    return bool(h.meta.get('pos')) or h.kind == 'exp'


def _fn(name, t):
    h, slots = intern(name, name, (t,), dims_in(t), meta={'fn': True}, key=('fn', name))
    h.dims = h.meta['sdims']
    return TE(norm(1, [(h.uid, tuple(slots), 1)]))


def let(t):
    """A name for t: an atom equal to t that is not multiplied out.  A common cyclic offset of an index is moved to the
    slot, so that a rolled array gets the same name."""
    lo = {}
    for k in t.d:
        for (u, s, e) in k:
            for x in s:
                b = base(x)
                if b < BB:
                    lo[b] = min(lo.get(b, off(x)), off(x))
    lo = {b: o for b, o in lo.items() if o}
    if lo:
        t = t.rename({b: shift(b, -o) for b, o in lo.items()})
    r = _fn('let', t)
    return r.rename({b: shift(b, o) for b, o in lo.items()}) if lo else r


EVEN = {'cos', 'cosh', 'abs'}
ODD = {'sin', 'tan', 'sinh', 'tanh', 'arctan', 'sign'}
AT_ZERO = {'cos': 1, 'cosh': 1, 'exp': 1, 'sin': 0, 'tan': 0, 'sinh': 0, 'tanh': 0, 'arctan': 0, 'abs': 0, 'sign': 0}


def sign_key(t):
    """Canonical sign: +1/-1 of the leading coefficient."""
    return 1 if leading(t)[1] > 0 else -1


def fn(name, t):
    t = te(t)
    if name == 'sqrt':
        return sqrt(t)
    if name == 'square':
        return t * t
    if name == 'let':
        return let(t)
    c = t.const()
    if c is not None:
        if c == 0 and name in AT_ZERO:
            return te(AT_ZERO[name])
        if c == 1 and name == 'log':
            return ZERO
        if name == 'abs':
            return te(abs(c))
        if name == 'sign':
            return te(1 if c > 0 else -1)
    if name == 'tan':
        return fn('sin', t) / fn('cos', t)
    if name in EVEN and sign_key(t) < 0:
        t = -t
    if name in ODD and sign_key(t) < 0:
        return -fn(name, -t)
    if name == 'log' and len(t.d) == 1:
        (k, v), = t.d.items()
        if len(k) == 1 and v == 1 and HEADS[k[0][0]].kind == 'exp' and k[0][2] == 1:
            h = HEADS[k[0][0]]
            return h.args[0].rename({i: x for i, x in enumerate(k[0][1])})
    return _fn(name, t)


def fn2(name, a, b):
    """Two-argument elementwise function (arctan2, maximum, ...)."""
    h, slots = intern(name, name, (te(a), te(b)), dims_all((te(a), te(b))), meta={'fn2': True}, key=('fn2', name))
    h.dims = h.meta['sdims']
    return TE(norm(1, [(h.uid, tuple(slots), 1)]))


def scalar_fn(name, args, dims_of=None, extra=(), keep=()):
    """Opaque scalar function of whole arrays: every array argument is given as a TE over kept ids."""
    d = dims_all(args)
    if dims_of:
        d.update(dims_of)
    h, slots = intern('opaque', name, tuple(args), d, keep=keep, extra=extra, key=('opaque', name, tuple(extra)))
    h.dims = h.meta['sdims']
    return TE(norm(1, [(h.uid, tuple(slots), 1)]))


def is_symmetric(t, i=0, j=1):
    return equal(t, t.rename({i: j, j: i}))


LEMMAS = []          # (A, B, dim): A B = I was discharged on this path, so inverse(A) is written as B


def strip(t):
    """(t', m): t' without its scalar content, inverse(t) = m inverse(t')."""
    common = None
    for k in t.d:
        f = {(u, s): e for (u, s, e) in k if not s}
        common = f if common is None else {a: min(common.get(a, 0), f.get(a, 0)) for a in set(common) | set(f)}
    common = {a: e for a, e in (common or {}).items() if e}
    m = TE({(): 1})
    if common:
        m = TE(norm(1, [(u, s, -e) for (u, s), e in common.items()]))
        t = t * m
    c = leading(t)[1]
    if c != 1:
        t = t.scale(1 / Fraction(c))
        m = m.scale(1 / Fraction(c))
    return t, m


def lemma_inverse(a, b, dim):
    for x, y in ((a, b), (b, a)):
        x, m = strip(x)
        mk = norm(1, [(u, s, -e) for k in m.d for (u, s, e) in k])
        back = TE(mk).scale(1 / Fraction(next(iter(m.d.values()))))
        LEMMAS.append((x, y * back, dim))


def inverse(t, dim):
    """Matrix inverse of t over slots (0, 1), both of dim.  Extra free indices are not supported."""
    if t.free() - {0, 1}:
        raise Unsupported('inverse of a parametrised matrix')
    if not t.d:
        raise Unsupported('inverse of zero')
    # pull out scalar content
    ks = list(t.d)
    common = None
    for k in ks:
        f = {(u, s): e for (u, s, e) in k if not s}
        common = f if common is None else {a: min(common.get(a, 0), f.get(a, 0)) for a in set(common) | set(f)}
    common = {a: e for a, e in (common or {}).items() if e}
    if common:
        m = TE(norm(1, [(u, s, -e) for (u, s), e in common.items()]))
        return inverse(t * m, dim) * m
    c = leading(t)[1]
    if c != 1:
        return inverse(t.scale(1 / Fraction(c)), dim).scale(1 / Fraction(c))
    if len(t.d) == 1:
        (k, v), = t.d.items()
        if len(k) == 1 and k[0][2] == 1:
            u, s, _ = k[0]
            h = HEADS[u]
            if h.kind == 'delta':
                return t
            if h.kind == 'inv':
                r = h.args[0]
                return r if s == (0, 1) else r.rename({0: 1, 1: 0})
            if h.kind == 'chol':
                g = cholinv_head(h)
                return atom(g, 0, 1) if s == (0, 1) else atom(g, 1, 0)
            if h.kind == 'cholinv':
                L = HEADS[h.meta['chol']]
                return atom(L, 0, 1) if s == (0, 1) else atom(L, 1, 0)
        dl = [f for f in k if HEADS[f[0]].kind == 'delta']
        if len(dl) == 1 and all(isb(x) is False for f in k for x in f[1]):
            rest = [f for f in k if f not in dl]
            return TE(norm(1 / Fraction(v), [(u, s, -e) for (u, s, e) in rest] + dl))
        sp = split_product(k)
        if sp is not None:
            a, b = sp
            # inv(A B) = inv(B) inv(A) when both are square over the same dimension
            ia, ib = inverse(a, dim), inverse(b, dim)
            return (ib.rename({1: 900}) * ia.rename({0: 900})).contract(900, dim)
    for a, b, d in LEMMAS:
        if d is dim and equal(a, t):
            return b
    # inverse of a transpose: canonical orientation
    if not is_symmetric(t):
        tt = t.rename({0: 1, 1: 0})
        for h in _intern.get(('inv', dim.uid), []):
            if equal(h.args[0], t):
                return atom(h, 0, 1)
            if equal(h.args[0], tt):
                return atom(h, 1, 0)
        h = new_head('inv', 'inv', (dim, dim), False, (t,))
        _intern.setdefault(('inv', dim.uid), []).append(h)
        return atom(h, 0, 1)
    for h in _intern.get(('inv', dim.uid), []):
        if h.sym and equal(h.args[0], t):
            return atom(h, 0, 1)
    h = new_head('inv', 'inv', (dim, dim), True, (t,))
    _intern.setdefault(('inv', dim.uid), []).append(h)
    return atom(h, 0, 1)


def split_product(k):
    """k as a matrix product A_0a B_a1 of two nonsingular-looking square factors (single atoms on the left)."""
    for f in k:
        u, s, e = f
        h = HEADS[u]
        if e == 1 and len(s) == 2 and 0 in s and h.dims[0] is h.dims[1] and h.kind in ('chol', 'cholinv', 'inv', 'base'):
            o = s[1] if s[0] == 0 else s[0]
            if not isb(o) or o == 0:
                continue
            rest = [g for g in k if g is not f]
            cnt = sum(1 for g in rest for x in g[1] if x == o)
            if cnt != 1 or any(0 in g[1] for g in rest):
                continue
            if h.kind == 'base' and not h.meta.get('nonsing'):
                continue
            a = TE(norm(1, [(u, tuple(1 if x == o else x for x in s), 1)]))
            b = TE(norm(1, [(g[0], tuple(0 if x == o else x for x in g[1]), g[2]) for g in rest]))
            return a, b
    return None


def cholinv_head(h):
    for g in _intern.get(('cholinv', h.uid), []):
        return g
    g = new_head('cholinv', 'cholinv', h.dims, False, h.args, chol=h.uid)
    _intern[('cholinv', h.uid)] = [g]
    return g


def cholesky(t, dim):
    """Lower Cholesky factor L of the symmetric t over slots (0,1):  sum_k L_ik L_jk = t_ij."""
    if t.free() - {0, 1}:
        raise Unsupported('cholesky of a parametrised matrix')
    # scalar content that is positive comes out as its square root
    if len(t.d) == 1:
        (k, v), = t.d.items()
        sc = [f for f in k if not f[1]]
        ot = [f for f in k if f[1]]
        if len(ot) == 1 and HEADS[ot[0][0]].kind == 'delta':
            return sqrt(TE(norm(v, sc))) * TE({tuple(ot): 1})
    for h in _intern.get(('chol', dim.uid), []):
        if equal(h.args[0], t):
            return atom(h, 0, 1)
    h = new_head('chol', 'chol', (dim, dim), False, (t,))
    _intern.setdefault(('chol', dim.uid), []).append(h)
    return atom(h, 0, 1)


# ------------------------------------------------------------------ equality
_eq_memo = {}
STATS = {'eq': 0, 'eq_true': 0, 'strategies': 0}


def equal(a, b):
    if a.d == b.d:
        return True
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return ca == cb
    if not (rewritable(a) or rewritable(b)):
        return False                # sums of products of atoms without identities between them
    return is_zero(a - b)


_rw = {}


def rewritable(t):
    """Is there an atom the rules of _is_zero apply to?"""
    for k in t.d:
        for f in k:
            r = _rw.get(f[0])
            if r is None:
                h = HEADS[f[0]]
                r = _rw[f[0]] = h.kind in ('recip', 'inv') or h.name in ('sin', 'cos')
            if r:
                return True
    return False


NONZERO = []        # numeric test: is the term different from zero for some values of its atoms?


def is_zero(d):
    if not d.d:
        return True
    c = d.const()
    if c is not None:
        return False
    key = frozenset(d.d.items())
    r = _eq_memo.get(key)
    if r is None:
        r = _is_zero(d)
        _eq_memo[key] = r
    return r


def _is_zero(d, depth=0):
    STATS['eq'] += 1
    if len(d.d) > 3 and NONZERO and any(HEADS[u].kind in ('recip', 'inv') for u in d.atoms()) and NONZERO[0](d):
        STATS['numeric'] = STATS.get('numeric', 0) + 1
        return False                # not an identity: no rewriting can show it is
    d = clear_denominators(d)
    if not d.d:
        STATS['eq_true'] += 1
        return True
    d = reduce_sincos(d)
    if not d.d:
        return True
    # rewriting with inverses of sums
    invs = sorted({u for u in d.atoms() if HEADS[u].kind == 'inv' and len(HEADS[u].args[0].d) > 1})
    if invs and depth == 0:
        choices = [range(len(HEADS[u].args[0].d)) for u in invs]
        n = 0
        for combo in itertools.product(*choices):
            n += 1
            if n > 24:
                break
            STATS['strategies'] += 1
            r = rewrite_inv(d, dict(zip(invs, combo)))
            if r is not None:
                r = clear_denominators(r)
                if not r.d:
                    return True
        # multiply by the inverted matrix on a free index: inv(T)_{0b} X = 0  iff  T inv(T) X = 0
        r = multiply_out(d, invs)
        if r is not None and not r.d:
            return True
    return False


def rewrite_inv(d, lead, limit=200):
    cur = d
    for _ in range(limit):
        acc = {}
        changed = False
        for k, v in cur.d.items():
            done = False
            if not changed:
                items = [((u, s), e) for (u, s, e) in k]
                for a, ((u, s), e) in enumerate(items):
                    if u in lead and e == 1:
                        occ = {}
                        for (_u, s2), e2 in items:
                            for x in s2:
                                b = base(x)
                                if b >= BB:
                                    occ[b] = occ.get(b, 0) + abs(e2)
                        out = inv_contract(v, items, a, occ, lead[u])
                        if out is not None:
                            add_into(acc, out)
                            done = changed = True
                            break
            if not done:
                add_into(acc, {k: v})
        cur = TE(acc)
        if not changed:
            return cur
        if len(cur.d) > 400:
            return None
    return None


def multiply_out(d, invs):
    """Every monomial starts (ends) with the same inv(T) on a free index: multiply by T on that side."""
    for u in invs:
        h = HEADS[u]
        for i in sorted(d.free()):
            ok = True
            acc = ZERO
            for k, v in d.d.items():
                f = [x for x in k if x[0] == u and x[2] == 1 and i in x[1]]
                if len(f) == 1 and sum(1 for x in k for y in x[1] if base(y) == i) == 1:
                    o = f[0][1][1] if f[0][1][0] == i else f[0][1][0]
                    rest = [x for x in k if x is not f[0]]
                    rest = [(a, tuple((i + off(y) * OFF) if base(y) == base(o) else y for y in b), c) for (a, b, c) in rest]
                    if not isb(o):
                        ok = False
                        break
                    acc = acc + TE(norm(v, rest))
                else:
                    t = TE({k: v}).rename({i: 901})
                    T = h.args[0].rename({0: 902, 1: 903}).rename({902: i, 903: 901})
                    acc = acc + (T * t).contract(901, h.dims[0])
            if ok:
                acc = clear_denominators(acc)
                if not acc.d:
                    return acc
    return None


def clear_denominators(d, limit=60):
    for _ in range(limit):
        cand = {}
        for k in d.d:
            for (u, s, e) in k:
                if HEADS[u].kind == 'recip' and not any(isb(x) for x in s):
                    cand[(u, s)] = max(cand.get((u, s), 0), e)
        if not cand:
            return d
        (u, s), top = max(cand.items())
        P = HEADS[u].args[0].rename({i: x for i, x in enumerate(s)})
        # nested reciprocals first: P itself may contain recips of older heads only
        acc = ZERO
        pw = [ONE]
        for _i in range(top):
            pw.append(pw[-1] * P)
        groups = {}
        for k, v in d.d.items():
            e = 0
            rest = []
            for f in k:
                if f[0] == u and f[1] == s:
                    e += f[2]
                else:
                    rest.append(f)
            groups.setdefault(e, {})
            add_into(groups[e], {tuple(rest): v})
        for e, g in groups.items():
            acc = acc + TE(g) * pw[top - e]
        d = acc
        if len(d.d) > 3000:
            return d
        if not d.d:
            return d
    return d


def reduce_sincos(d):
    return d


# ------------------------------------------------------------------ substitution and derivatives
POINTS = {}        # point id -> (Dim, TE): the position TE of an axis of that length


def point(d, i):
    """The point id of position i of the axis."""
    for pid, (e, s) in POINTS.items():
        if e is d and equal(s, i):
            return pid
    pid = PT + len(POINTS)
    POINTS[pid] = (d, i)
    return pid


def depends(t, uid, memo):
    """Whether the term mentions the head, also as the position of an entry."""
    return any(head_depends(HEADS[u], uid, memo) for u in t.atoms()) or bool(points_at(t, uid, memo))


def points_at(t, uid, memo):
    return {x for x in t.free() if x in POINTS and depends(POINTS[x][1], uid, memo)} if POINTS else ()


def head_depends(h, uid, memo):
    r = memo.get(h.uid)
    if r is None:
        r = h.uid == uid or any(u == uid or head_depends(HEADS[u], uid, memo) for a in h.args for u in a.atoms())
        memo[h.uid] = r
    return r


def heads_in(t):
    """All heads of a term, also inside arguments."""
    seen, todo = {}, [t]
    while todo:
        for k in todo.pop().d:
            for f in k:
                if f[0] not in seen:
                    h = seen[f[0]] = HEADS[f[0]]
                    todo += [a for a in h.args if isinstance(a, TE)]
    return list(seen.values())


def subst(t, uid, fn_, memo=None):
    """Replace the atom uid everywhere (also inside arguments): fn_(slots) -> TE."""
    memo = {} if memo is None else memo
    if POINTS:
        pts = points_at(t, uid, memo)
        if pts:
            t = t.rename({x: point(POINTS[x][0], subst(POINTS[x][1], uid, fn_, memo)) for x in pts})
    acc = ZERO
    for k, v in t.d.items():
        dep = [f for f in k if head_depends(HEADS[f[0]], uid, memo)]
        if not dep:
            acc = acc + TE({k: v})
            continue
        # make bound indices free temporarily
        bs = {}
        for (u, s, e) in k:
            for q, x in enumerate(s):
                if isb(x):
                    bs[base(x)] = HEADS[u].dims[q]
        m = {b: 700 + i for i, b in enumerate(sorted(bs))}
        fs = [(u, tuple((m[base(x)] + off(x) * OFF) if base(x) in m else x for x in s), e) for (u, s, e) in k]
        cur = TE({(): v})
        for (u, s, e) in fs:
            h = HEADS[u]
            if u == uid:
                r = fn_(s)
            elif head_depends(h, uid, memo):
                r = rebuild(h, [subst(a, uid, fn_, memo) for a in h.args], s)
            else:
                r = None
            if r is None:
                cur = cur * TE({((u, s, e),): 1})
            elif e >= 0:
                cur = cur * (r ** e)
            else:
                cur = cur * recip(r ** (-e))
        for b, i in m.items():
            cur = cur.contract(i, bs[b])
        acc = acc + cur
    return acc


def rebuild(h, args, slots):
    nk = h.meta.get('nk', 0)
    m = {nk + i: 600 + i for i in range(len(slots))}

    def fin(t):
        return t.rename({600 + i: s for i, s in enumerate(slots)})
    if h.kind == 'recip':
        return fin(recip(args[0].rename(m)))
    if h.meta.get('fn'):
        return fin(fn(h.kind, args[0].rename(m)))
    if h.meta.get('fn2'):
        return fin(fn2(h.kind, args[0].rename(m), args[1].rename(m)))
    if h.kind == 'inv':
        return inverse(args[0], h.dims[0]).rename({0: slots[0], 1: slots[1]})
    if h.kind == 'chol':
        return cholesky(args[0], h.dims[0]).rename({0: slots[0], 1: slots[1]})
    rb = h.meta.get('rebuild')
    if rb is not None:
        return rb(h, args, slots)
    raise Unsupported('substitution inside %s' % h.name)


DERIV = {
    'sin': lambda t: fn('cos', t),
    'cos': lambda t: -fn('sin', t),
    'exp': lambda t: fn('exp', t),
    'log': lambda t: recip(t),
    'sqrt': lambda t: recip(sqrt(t)).scale(Fraction(1, 2)),
    'arctan': lambda t: recip(t * t + 1),
    'tanh': lambda t: ONE - fn('tanh', t) * fn('tanh', t),
    'sinh': lambda t: fn('cosh', t),
    'cosh': lambda t: fn('sinh', t),
    'let': lambda t: ONE,
}


def diff(t, uid, new, dim, memo=None):
    """d t / d atom(uid)[new]; uid has at most one slot (dim) -- new is the free index of the derivative."""
    memo = {} if memo is None else memo
    acc = ZERO
    for k, v in t.d.items():
        bs = {}
        for (u, s, e) in k:
            for q, x in enumerate(s):
                if isb(x):
                    bs[base(x)] = HEADS[u].dims[q]
        m = {b: 700 + i for i, b in enumerate(sorted(bs))}
        fs = [(u, tuple((m[base(x)] + off(x) * OFF) if base(x) in m else x for x in s), e) for (u, s, e) in k]
        tot = ZERO
        for i, (u, s, e) in enumerate(fs):
            h = HEADS[u]
            if not head_depends(h, uid, memo):
                continue
            df = dfactor(h, s, uid, new, dim, memo)
            rest = ONE
            for j, f in enumerate(fs):
                ee = f[2] - (1 if j == i else 0)
                if ee:
                    rest = rest * TE(norm(1, [(f[0], f[1], ee)]))
            tot = tot + (rest * df).scale(e)
        tot = tot.scale(v)
        for b, i in m.items():
            tot = tot.contract(i, bs[b])
        acc = acc + tot
    return acc


def dfactor(h, s, uid, new, dim, memo):
    if h.uid == uid:
        if not s:
            return ONE
        if any(off(x) for x in s):
            raise Unsupported('derivative through a shifted index')
        return delta(dim, s[0], new)
    nk = h.meta.get('nk', 0)
    m = {nk + i: x for i, x in enumerate(s)}
    if h.kind == 'recip':
        da = diff(h.args[0].rename({i: 620 + i for i in range(len(s))}), uid, new, dim, memo)
        da = da.rename({620 + i: x for i, x in enumerate(s)})
        return -(TE({((h.uid, s, 2),): 1}) * da)
    if h.meta.get('fn'):
        if h.kind not in DERIV:
            raise Unsupported('derivative of ' + h.kind)
        a = h.args[0].rename({i: x for i, x in enumerate(s)})
        return DERIV[h.kind](a) * diff(a, uid, new, dim, memo)
    if h.meta.get('fn2') and h.kind == 'arctan2':
        y = h.args[0].rename({i: x for i, x in enumerate(s)})
        x = h.args[1].rename({i: z for i, z in enumerate(s)})
        r = recip(x * x + y * y)
        return (x * diff(y, uid, new, dim, memo) - y * diff(x, uid, new, dim, memo)) * r
    dh = h.meta.get('diff')
    if dh is not None:
        return dh(h, s, uid, new, dim, memo)
    raise Unsupported('derivative of %s' % h.name)


# ------------------------------------------------------------------ printing
def show(t, limit=6):
    if not t.d:
        return '0'
    out = []
    for k, v in sorted(t.d.items())[:limit]:
        p = [] if v == 1 and k else [str(v)]
        for (u, s, e) in k:
            h = HEADS[u]
            nm = h.name
            if h.args and h.kind not in ('chol', 'inv', 'delta'):
                nm += '(' + ','.join(show(a, 2) for a in h.args)[:60] + ')'
            elif h.kind in ('inv', 'chol'):
                nm += '(' + show(h.args[0], 2)[:40] + ')'
            idx = ''.join(('[%s]' % ','.join(_ix(x) for x in s)) if s else '')
            p.append(nm + idx + ('^%d' % e if e != 1 else ''))
        out.append('*'.join(p))
    return ' + '.join(out) + (' + ... (%d terms)' % len(t.d) if len(t.d) > limit else '')


def _ix(x):
    b, o = base(x), off(x)
    n = 'k%d' % (b - BB) if b >= BB else ('p%d' % (b - PT) if b >= PT else 'i%d' % b)
    return n + ('%+d' % o if o else '')
