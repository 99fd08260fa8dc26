"""Symbolic booleans, the path explorer, and what is known on a path."""
from fractions import Fraction
from . import core
from .core import TE, te, HEADS, Unsupported, Infeasible, EngineSignal, isb


class Rebind(EngineSignal):
    """An equality fork fixes a scalar input: the path is run again with that value."""

    def __init__(self, name, value, uid):
        self.name, self.value, self.uid = name, value, uid

    def put(self, sb):
        """The condition with the value put in: a SymBool, or a bool."""
        f = lambda s: te(self.value)
        try:
            if sb.kind == 'rel':
                return rel(core.subst(sb.a[0], self.uid, f), sb.a[1])
            if sb.kind in ('pd', 'sing') and isinstance(sb.a[0][0], TE):
                return SymBool(sb.kind, (core.subst(sb.a[0][0], self.uid, f),) + tuple(sb.a[0][1:]), *sb.a[1:])
            if sb.kind in ('pd', 'sing'):
                return SymBool(sb.kind, tuple(tuple(core.subst(x, self.uid, f) for x in r) for r in sb.a[0]), *sb.a[1:])
        except (Unsupported, ZeroDivisionError, KeyError, AttributeError, TypeError):
            pass
        return sb


class SymBool:
    """A condition that may be undetermined.  kind:
       rel  (TE, op)            op in '==', '<', '<='      meaning TE op 0
       pd   (matrix)            positive definite  (matrix: tuple of rows of TE for unit parts, or (TE, Dim))
       sing (matrix)            singular
       all  (op, blocks)        every entry of the array of terms satisfies TE op 0
       not/and/or
    """
    __slots__ = ('kind', 'a')
    __array_ufunc__ = None

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __bool__(self):
        return Engine.cur().decide(self)

    def __invert__(self):
        return neg(self)

    def __and__(self, o):
        return SymBool('and', self, tobool(o))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool('or', self, tobool(o))
    __ror__ = __or__

    def all(self, *a, **k):
        return self

    any = all

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else neg(self)
        return NotImplemented
    __hash__ = None

    def __repr__(self):
        return 'SymBool(%s %s)' % (self.kind, ' '.join(str(x)[:80] for x in self.a))


def tobool(x):
    if isinstance(x, SymBool):
        return x
    return SymBool('const', bool(x))


def neg(s):
    if s.kind == 'not':
        return s.a[0]
    if s.kind == 'const':
        return SymBool('const', not s.a[0])
    return SymBool('not', s)


def rel(t, op):
    """t op 0, folded when t is constant."""
    t = te(t)
    c = t.const()
    if c is not None:
        return {'==': c == 0, '<': c < 0, '<=': c <= 0}[op]
    return SymBool('rel', t, op)


class Engine:
    """Runs a function on every feasible path (re-execution with a decision prefix)."""
    _stack = []

    @classmethod
    def cur(cls):
        if not cls._stack:
            raise Unsupported('symbolic condition outside a run')
        return cls._stack[-1]

    def __init__(self, max_paths=200):
        self.max_paths = max_paths
        self.trace = []
        self.z3_calls = 0
        self.z3_time = 0.0
        self.notes = []
        self.templates = {}    # loop rule: levels of the templates, kept over restarts
        self.ctx = None
        self.done = {}         # work items explored before a restart
        self.nloops = 0
        self.cuts = set()      # numbers that positions and lengths were compared with
        self.visited = set()   # loops on the current path

    # -- path bookkeeping
    def learnt(self, site):
        """How much the templates of a loop have been weakened."""
        return sum(len(v) if k == ('writes',) else 2 * v[0] + (v[1] is not None) for k, v in self.templates.get(site, {}).items())

    def paths(self, fn):
        """Yield (result of fn(), engine) for every path.  fn is run afresh for each."""
        work = [((), {}, (), ())]
        n = late = 0
        while work:
            prefix, binds, pool, key = work.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            old = self.done.get(key)
            if old is not None and all(self.learnt(s) == v for s, v in old[0]):
                work.extend(old[2])     # nothing this path depends on has changed since the last restart
                if old[1][0] in ('done', 'end'):
                    yield old[1][1]
                continue
            self.visited = set()
            self.nloops = 0
            self.prefix = prefix
            self.binds = binds
            self.pool = list(pool)
            self.taken = []
            self.conds = []
            self.facts = []        # (SymBool, bool)
            self.assumed = []
            self.pending = []
            Engine._stack.append(self)
            try:
                try:
                    r = fn()
                    out = ('done', r)
                except Infeasible:
                    out = ('infeasible', None)
                except core.EndPath as e:
                    out = ('end', e)
                except Rebind as rb:
                    b2 = dict(binds)
                    b2[rb.name] = rb.value
                    pool = [(rb.put(c), v) for c, v in list(zip(self.conds, self.taken)) + self.pool]
                    if all(c is v or not isinstance(c, bool) for c, v in pool):
                        self.pending.append(((), b2, tuple((c, v) for c, v in pool if not isinstance(c, bool))))
                    out = ('rebind', None)
                except core.Defer:
                    late += 1
                    if late > 50 or not work:
                        raise Unsupported('paths that wait for each other')
                    work.insert(0, (prefix, binds, pool, key))
                    continue
            finally:
                Engine._stack.pop()
            self.pending = [w + (key + (i,),) for i, w in enumerate(self.pending)]
            if self.visited:
                self.done[key] = [(s, self.learnt(s)) for s in self.visited], out, list(self.pending)
            work.extend(self.pending)
            if out[0] in ('done', 'end'):
                yield out[1]

    def decide(self, sb):
        v = self.value(sb)
        if v is not None:
            return v
        if sb.kind == 'not':
            return not self.decide(sb.a[0])
        if sb.kind == 'and':
            return self.decide(sb.a[0]) and self.decide(sb.a[1])
        if sb.kind == 'or':
            return self.decide(sb.a[0]) or self.decide(sb.a[1])
        v = self.implied(sb)
        if v is not None:
            self.learn(sb, v)
            return v
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            # decisions of the path this one continues with a value put in: found by their condition, as the value may
            # have decided some of them
            for q, (c, w) in enumerate(self.pool):
                r = same(c, sb)
                if r is not None:
                    v = w if r else not w
                    del self.pool[q]
                    break
            else:
                v = True
                self.pending.append((tuple(self.taken) + (False,), dict(self.binds), tuple(self.pool)))
        self.taken.append(v)
        self.conds.append(sb)
        self.learn(sb, v)
        return v

    def assume(self, sb):
        """Add a precondition."""
        if isinstance(sb, bool):
            if not sb:
                raise Infeasible()
            return
        v = self.value(sb)
        if v is False:
            raise Infeasible()
        self.facts.append((sb, True))
        if sb.kind == 'rel':
            self._sign_meta(sb)

    def _sign_meta(self, sb):
        pass

    def learn(self, sb, v):
        self.facts.append((sb, v))
        if sb.kind == 'rel' and sb.a[0].d.get(()) and self.nloops:
            d = sb.a[0].d
            if all(k == () or (len(k) == 1 and k[0][2] == 1 and HEADS[k[0][0]].meta.get('index')) for k in d):
                self.cuts.add(abs(int(d[()])))
        if sb.kind == 'rel' and sb.a[1] == '==' and v:
            s = solve_for_symbol(sb.a[0])
            if s is not None:
                raise Rebind(*s)

    def value(self, sb):
        if sb.kind == 'const':
            return sb.a[0]
        for f, v in self.facts:
            w = same(f, sb)
            if w is not None:
                return v if w else (not v)
        return None

    def known_or_implied(self, sb):
        v = self.value(sb)
        return v if v is not None else self.implied(sb)

    def implied(self, sb):
        if sb.kind == 'rel':
            return self.rel_implied(sb)
        if sb.kind == 'pd':
            return pd_known(self, sb)
        if sb.kind == 'all' and isinstance(sb.a[0], str):
            good = {'<': ('-',), '<=': ('-', '0-', '0'), '==': ('0',)}.get(sb.a[0], ())
            if good and all(self.sign(t) in good for t in sb.a[1]):
                return True
            return None
        if sb.kind == 'sing':
            r = pd_known(self, SymBool('pd', *sb.a))
            if r:
                return False
            return None
        return None

    def rel_implied(self, sb):
        t, op = sb.a
        s = self.sign(t)
        if s is not None:
            if op == '<' and s in ('+', '0+', '0'):
                return False
            if op == '<' and s == '-':
                return True
            if op == '<=' and s == '+':
                return False
            if op == '<=' and s in ('-', '0-', '0'):
                return True
            if op == '==' and s in ('+', '-'):
                return False
            if op == '==' and s == '0':
                return True
        from . import smt
        return smt.decide(self, sb)

    def sign(self, t):
        """'+', '-', '0+', '0-', '0' or None for a scalar term, from declared signs and learned facts."""
        return sign_of(self, t)


def solve_for_symbol(t):
    """t = c*s + d with s a named scalar input: (name, -d/c)."""
    if any(len(k) > 1 for k in t.d):
        return None
    sym = None
    d = 0
    for k, v in t.d.items():
        if k == ():
            d = v
        else:
            (u, s, e), = k
            if s or e != 1 or not HEADS[u].meta.get('bind') or sym is not None:
                return None
            sym = (u, v)
    if sym is None:
        return None
    return HEADS[sym[0]].name, -Fraction(d) / Fraction(sym[1]), sym[0]


def same(a, b):
    """True: a and b are the same condition, False: complementary, None: neither is evident."""
    if a is b:
        return True
    if a.kind == 'not':
        r = same(a.a[0], b)
        return None if r is None else not r
    if b.kind == 'not':
        r = same(a, b.a[0])
        return None if r is None else not r
    if a.kind != b.kind:
        return None
    if a.kind == 'rel':
        (t1, o1), (t2, o2) = a.a, b.a
        if o1 == o2:
            if core.equal(t1, t2):
                return True
            if o1 == '==' and core.equal(t1, -t2):
                return True
        if {o1, o2} == {'<', '<='} and core.equal(t1, -t2):
            return False
        return None
    if a.kind in ('pd', 'sing'):
        return True if same_matrix(a.a[0], b.a[0]) else None
    if a.kind == 'all':
        if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
            return None
        return True if all(core.equal(x, y) for x, y in zip(a.a[1], b.a[1])) else None
    if a.kind == 'opaque':
        return True if (a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1])
                        and all(core.equal(x, y) for x, y in zip(a.a[1], b.a[1]))) else None
    return None


def same_matrix(m1, m2):
    """Matrices are (TE, Dim) or a tuple of rows of scalar TEs."""
    if isinstance(m1[0], TE) != isinstance(m2[0], TE):
        return False
    if isinstance(m1[0], TE):
        return m1[1] is m2[1] and core.equal(m1[0], m2[0])
    return len(m1) == len(m2) and all(core.equal(x, y) for r, s in zip(m1, m2) for x, y in zip(r, s))


# ------------------------------------------------------------------ signs of scalar terms
def head_sign(eng, h):
    m = h.meta
    if m.get('pos'):
        return '+'
    if m.get('nonneg'):
        return '0+'
    if h.kind in ('exp',):
        return '+'
    if h.kind == 'cosh':
        return '+'
    if h.kind == 'abs':
        return '0+'
    if h.kind == 'sqrt':
        s = sign_of(eng, h.args[0])
        return '+' if s == '+' else '0+'
    if h.kind == 'recip':
        s = sign_of(eng, h.args[0])
        return s if s in ('+', '-') else None
    if h.kind == 'opaque' and h.name in ('nucnorm', 'norm'):
        return '0+'
    return None


def primitive(eng, t):
    """(t divided by its scalar content, sign of that content): a condition on t is one on the quotient."""
    if not t.d:
        return t, '+'
    common, c = core.content(t)
    sg = '+'
    if common:
        for u, e in common.items():
            hs = head_sign(eng, HEADS[u])
            if hs is None and e % 2 == 0:
                return t, '+'
            if hs not in ('+', '-'):
                return t, '+'
            if hs == '-' and e % 2:
                sg = '-' if sg == '+' else '+'
        t = t * TE(core.norm(1, [(u, (), -e) for u, e in common.items()]))
        c = abs(core.leading(t)[1]) if t.d else 1
    if c != 1:
        t = t.scale(1 / Fraction(c))
    return t, sg


def fact_sign(eng, t):
    r = fact_sign0(eng, t)
    if r is None and (len(t.d) > 1 or not any(len(k) == 1 for k in t.d)):
        q, sg = primitive(eng, t)
        if q is not t or any(f.kind == 'rel' for f, _v in eng.facts):
            r = fact_sign0(eng, q, True)
            if r is not None and sg == '-':
                r = {'-': '+', '+': '-', '0+': '0-', '0-': '0+', '0': '0'}[r]
    return r


def fact_sign0(eng, t, prim=False):
    for f, v in eng.facts:
        if f.kind != 'rel':
            continue
        s, op = f.a
        sg = None
        if op == '<':
            sg = '-' if v else '0+'
        elif op == '<=':
            sg = '0-' if v else '+'
        elif op == '==' and v:
            sg = '0'
        if sg is None:
            continue
        if prim:
            s, g = primitive(eng, s)
            if g == '-':
                s = -s
        if core.equal(s, t):
            return sg
        if core.equal(s, -t):
            return {'-': '+', '+': '-', '0+': '0-', '0-': '0+', '0': '0'}[sg]
    return None


def mul_sign(a, b):
    if a is None or b is None:
        return None
    if '0' == a or '0' == b:
        return '0'
    neg_ = (a[-1] == '-') != (b[-1] == '-')
    weak = len(a) > 1 or len(b) > 1
    return ('0' if weak else '') + ('-' if neg_ else '+')


def sign_of(eng, t):
    if not t.d:
        return '0'
    if eng is not None:
        s = fact_sign(eng, t)
        if s:
            return s
    tot = None
    for k, v in t.d.items():
        s = '+' if v > 0 else '-'
        # factors at free indices only are elements: treated like scalars
        idx = [f for f in k if any(isb(x) for x in f[1])]
        if idx:
            if any(not isb(x) for f in idx for x in f[1]):
                return None
            s = mul_sign(s, quad_sign(eng, idx))
            if s is None:
                return None
        for (u, sl, e) in k:
            if any(isb(x) for x in sl):
                continue
            hs = head_sign(eng, HEADS[u])
            if hs is None and eng is not None and len(t.d) > 1 and not sl:
                hs = fact_sign(eng, TE({((u, sl, 1),): 1}))
            if hs is None:
                if e % 2 == 0:
                    hs = '0+'
                else:
                    return None
            elif e % 2 == 0:
                hs = '+' if hs in ('+', '-') else '0+'
            s = mul_sign(s, hs)
        if s is None:
            return None
        if tot is None:
            tot = s
        elif tot == '0':
            tot = s
        elif s == '0':
            pass
        elif tot[-1] != s[-1]:
            return None
        else:
            tot = tot if len(tot) == 1 else s
    return tot


def quad_sign(eng, idx):
    """Sign of a fully contracted monomial: a product of quadratic forms and of sums of squares."""
    todo = list(idx)
    out = '+'
    while todo:
        comp = component(todo, {x for x in todo[0][1]})
        todo = [f for f in todo if f not in comp]
        r = quad1(eng, comp)
        if r is None:
            return None
        out = mul_sign(out, r)
    return out


def quad1(eng, comp):
    if all(e % 2 == 0 for (_u, _s, e) in comp):
        return '0+'
    for mid in comp:
        s = mid[1]
        if len(s) != 2 or mid[2] != 1 or s[0] == s[1]:
            continue
        if head_definite(eng, HEADS[mid[0]]) not in ('pd', 'psd'):
            continue
        rest = [f for f in comp if f is not mid]
        L, R = component(rest, {s[0]}), component(rest, {s[1]})
        if len(L) + len(R) != len(rest) or any(f in R for f in L):
            continue
        if mirror(L, s[0], R, s[1]):
            return '0+'
    for (u, s, e) in comp:
        # shared index: sum over a of (left)_a (right)_a
        for a in s:
            fs = [f for f in comp if a in f[1]]
            if len(fs) == 2 and all(f[2] == 1 for f in fs):
                rest = [f for f in comp if f not in fs]
                L = [fs[0]] + component(rest, {x for x in fs[0][1] if x != a})
                R = [fs[1]] + component(rest, {x for x in fs[1][1] if x != a})
                if len(L) + len(R) == len(comp) and not any(f in R for f in L) and mirror(L, a, R, a):
                    return '0+'
    return None


def mirror(L, x, R, y):
    lt = core.TE(core.norm(1, [(f[0], tuple(801 if i == x else i for i in f[1]), f[2]) for f in L]))
    rt = core.TE(core.norm(1, [(f[0], tuple(801 if i == y else i for i in f[1]), f[2]) for f in R]))
    return core.equal(lt, rt)


# ------------------------------------------------------------------ definiteness
def pd_known(eng, sb):
    m = sb.a[0]
    if isinstance(m[0], TE):
        t, dim = m
        if len(t.d) == 1:
            q, sg = primitive(eng, t)
            (k, v), = q.d.items()
            if sg in ('+', '-') and v in (1, -1) and len(k) == 1 and k[0][2] == 1 and HEADS[k[0][0]].kind == 'inv':
                # an inverse is positive definite iff the matrix is
                a = HEADS[k[0][0]].args[0]
                return eng.known_or_implied(SymBool('pd', (a if (sg == '+') == (v == 1) else -a, dim)))
        r = definite(eng, t, dim)
        if r == 'pd':
            return True
        if r == 'nsd':
            return False
        return None
    n = len(m)
    if n == 1:
        s = sign_of(eng, m[0][0])
        if s == '+':
            return True
        if s in ('-', '0-', '0'):
            return False
        from . import smt
        r = smt.decide(eng, SymBool('rel', -m[0][0], '<')) if not isinstance(rel(-m[0][0], '<'), bool) else rel(-m[0][0], '<')
        return r
    # diagonal with positive entries
    if all(not m[i][j].d for i in range(n) for j in range(n) if i != j):
        ss = [sign_of(eng, m[i][i]) for i in range(n)]
        if all(s == '+' for s in ss):
            return True
        if any(s in ('-', '0-', '0') for s in ss):
            return False
    # a principal submatrix of a matrix known positive definite
    for f, v in (eng.facts if eng is not None else ()):
        if v and f.kind == 'pd' and not isinstance(f.a[0][0], TE) and len(f.a[0]) > n:
            M = f.a[0]
            ix = []
            for i in range(n):
                j = [q for q in range(len(M)) if q not in ix and core.equal(M[q][q], m[i][i])]
                if not j:
                    break
                ix.append(j[0])
            if len(ix) == n and all(core.equal(M[ix[i]][ix[j]], m[i][j]) for i in range(n) for j in range(n)):
                return True
    if seq_submatrix(m):
        return True
    return None


def seq_submatrix(m):
    """Whether m is a principal submatrix of an element of a sequence of positive definite matrices."""
    def entry(t):
        if len(t.d) == 1:
            (k, v), = t.d.items()
            if v == 1 and len(k) == 1 and k[0][1:] == ((), 1) and HEADS[k[0][0]].kind == 'seq':
                return HEADS[k[0][0]]
    hs = [entry(m[i][i]) for i in range(len(m))]
    if any(h is None or not h.meta.get('submatrix') or not isinstance(h.meta['part'], tuple) or len(h.meta['part']) != 2 or h.meta['part'][0] != h.meta['part'][1] for h in hs):
        return False
    ix = [h.meta['part'][0] for h in hs]
    if len(set(ix)) != len(ix):
        return False

    def same(h, i, j):
        return h is not None and h.meta['seqname'] == hs[0].meta['seqname'] and core.equal(h.args[0], hs[0].args[0]) \
            and h.meta['part'] == (min(i, j), max(i, j))
    return all(same(entry(m[a][b]), i, j) for a, i in enumerate(ix) for b, j in enumerate(ix))


def definite(eng, t, dim):
    """'pd', 'psd', 'nsd' or None for the symmetric matrix term t over slots (0,1)."""
    r = definite0(eng, t, dim)
    if r is None and any(v < 0 for v in t.d.values()):
        r = schur(eng, t, dim)
    return r


def definite0(eng, t, dim):
    if not t.d:
        return 'nsd'
    if eng is not None:
        prim = None
        for f, v in eng.facts:
            if f.kind == 'pd' and isinstance(f.a[0][0], TE) and f.a[0][1] is dim:
                if core.equal(f.a[0][0], t):
                    return 'pd' if v else None
                if prim is None:
                    prim, psg = primitive(eng, t)
                fp, fsg = primitive(eng, f.a[0][0])
                if psg == '+' and fsg == '+' and core.equal(fp, prim):
                    return 'pd' if v else None
                if v and len(t.d) > 1 and len(f.a[0][0].d) > 1:
                    r = t - f.a[0][0]
                    if len(r.d) < len(t.d):
                        d = definite(eng, r, dim) if r.d else 'psd'
                        if d in ('pd', 'psd'):
                            return 'pd'
    pd = psd = nsd = 0
    for k, v in t.d.items():
        s = '+' if v > 0 else '-'
        idx = []
        for f in k:
            if f[1]:
                idx.append(f)
                continue
            hs = head_sign(eng, HEADS[f[0]]) or (fact_sign(eng, TE({((f[0], (), 1),): 1})) if eng else None)
            if hs is None and f[2] % 2 == 0:
                hs = '0+'
            elif hs is not None and f[2] % 2 == 0:
                hs = '0+' if hs[0] == '0' else '+'
            s = mul_sign(s, hs)
        if s is None or s == '0':
            return None
        q = mono_definite(eng, idx, dim)
        if q is None:
            return None
        if s[-1] == '-':
            if q in ('pd', 'psd'):
                nsd += 1
                continue
            return None
        if q == 'pd' and s == '+':
            pd += 1
        elif q in ('pd', 'psd'):
            psd += 1
        else:
            return None
    if nsd and not pd and not psd:
        return 'nsd'
    if nsd:
        return None
    return 'pd' if pd else 'psd'


def nonneg(eng, t):
    """A scalar known to be at least zero."""
    s = sign_of(eng, t)
    if s in ('+', '0+', '0'):
        return True
    b = rel(-t, '<=')
    if isinstance(b, bool):
        return b
    from . import smt
    return smt.decide(eng, b) is True


def schur(eng, t, dim):
    """t = M - M H' inv(H M H' + R) H M with M, R semidefinite is (I - G H) M (I - G H)' + G R G', hence semidefinite."""
    inv = None
    for k, v in t.d.items():
        us = [f for f in k if HEADS[f[0]].kind == 'inv' and len(f[1]) == 2 and f[2] == 1 and HEADS[f[0]].dims]
        if v < 0:
            if len(us) != 1 or (inv is not None and us[0][0] != inv):
                return None
            inv = us[0][0]
    h = HEADS[inv]
    if not h.sym:
        return None
    rest = {k: v for k, v in t.d.items() if all(f[0] != inv for f in k)}
    M, S = TE(rest), h.args[0]
    if not rest:
        return None
    single = [k[0] for k, v in rest.items() if v == 1 and len(k) == 1 and len(k[0][1]) == 2 and k[0][2] == 1]
    for q in single:
        for k, v in t.d.items():
            if v != -1 or k in rest:
                continue
            ends = [f for f in k if f[0] == q[0] and (0 in f[1] or 1 in f[1])]
            mid = [f for f in k if f[0] == inv]
            if len(ends) != 2 or len(mid) != 1:
                continue
            left = [f for f in ends if 0 in f[1]]
            if len(left) != 1:
                continue
            a = [x for x in left[0][1] if x != 0][0]
            for b in mid[0][1]:
                others = [f for f in k if f not in ends and f is not mid[0]]
                L = component(others, {a})
                if not L or not any(b in f[1] for f in L):
                    continue
                mid_dim = h.dims[0]
                from . import arr
                Ha = arr.Arr([(mid_dim,), (dim,)], {(0, 0): TE(core.norm(1, [(f[0], tuple(0 if x == b else 1 if x == a else x for x in f[1]), f[2]) for f in L]))})
                Ma = arr.Arr([(dim,), (dim,)], {(0, 0): M})
                HM = Ha @ Ma
                Ia = arr.Arr([(mid_dim,), (mid_dim,)], {(0, 0): core.atom(h, 0, 1)})
                if not core.equal((Ma - HM.T @ Ia @ HM).blocks.get((0, 0), core.ZERO), t):
                    continue
                R = S - (HM @ Ha.T).blocks.get((0, 0), core.ZERO)
                if definite(eng, M, dim) in ('pd', 'psd') and definite(eng, R, mid_dim) in ('pd', 'psd'):
                    return 'psd'
    return None


def mono_definite(eng, idx, dim):
    """Definiteness of one monomial (index factors only) as a matrix over (0,1)."""
    if len(idx) == 1:
        u, s, e = idx[0]
        h = HEADS[u]
        if e == 1 and set(s) == {0, 1}:
            return head_definite(eng, h)
    # congruence  B(0,..) M B(1,..)
    z = [f for f in idx if 0 in f[1]]
    o = [f for f in idx if 1 in f[1]]
    if any(0 in f[1] and 1 in f[1] for f in idx):
        return None
    # outer product  v_0 v_1 (times a scalar)
    L, R = component(idx, {0}), component(idx, {1})
    if L and R and not any(f in R for f in L):
        rest = [f for f in idx if f not in L and f not in R]
        q = quad_sign(eng, rest) if rest else '+'
        if q in ('+', '0+') and mirror(L, 0, R, 1):
            return 'psd'
    # mirror: swap 0<->1 must be an automorphism with the middle definite
    mids = []
    for f in idx:
        h = HEADS[f[0]]
        if f not in z and f not in o and len(f[1]) == 2 and f[2] == 1 and isb(f[1][0]) and isb(f[1][1]) and f[1][0] != f[1][1]:
            if head_definite(eng, h) in ('pd', 'psd'):
                mids.append(f)
    for mid in mids + [None]:
        rest = [f for f in idx if f is not mid]
        if mid is None:
            # halves joined by bound indices: split by connectivity is not possible; try a shared index
            shared = [x for f in z for x in f[1] if isb(x) and any(x in g[1] for g in o)]
            if len(set(shared)) != 1 or len(z) + len(o) != len(rest):
                continue
            a = shared[0]
            left = core.canon(tuple((f[0], tuple(801 if x == a else x for x in f[1]), f[2]) for f in z))
            right = core.canon(tuple((f[0], tuple(801 if x == a else (0 if x == 1 else x) for x in f[1]), f[2]) for f in o))
            left = core.TE(core.norm(1, list(left)))
            right = core.TE(core.norm(1, list(right)))
            if core.equal(left, right):
                return 'psd'
            continue
        a, b = mid[1]
        for (x, y) in ((a, b), (b, a)):
            L = component(rest, {0, x})
            R = component(rest, {1, y})
            if L is None or R is None or len(L) + len(R) != len(rest) or any(f in R for f in L):
                continue
            lt = core.TE(core.norm(1, [(f[0], tuple(801 if i == x else i for i in f[1]), f[2]) for f in L]))
            rt = core.TE(core.norm(1, [(f[0], tuple(801 if i == y else (0 if i == 1 else i) for i in f[1]), f[2]) for f in R]))
            if core.equal(lt, rt):
                md = head_definite(eng, HEADS[mid[0]])
                if md == 'pd' and len(L) == 1 and (HEADS[L[0][0]].meta.get('nonsing') or HEADS[L[0][0]].kind in ('inv', 'chol', 'cholinv')) :
                    return 'pd'
                return 'psd'
    return None


def component(fs, seeds):
    """Factors connected to the seed indices through bound indices (seed ids themselves do not propagate across)."""
    got = []
    ids = set(seeds)
    ch = True
    while ch:
        ch = False
        for f in fs:
            if f in got:
                continue
            if any(x in ids for x in f[1]):
                got.append(f)
                ids |= {x for x in f[1] if isb(x)}
                ch = True
    return got


def head_definite(eng, h):
    if h.meta.get('pd'):
        return 'pd'
    if h.meta.get('psd'):
        return 'psd'
    if h.kind == 'delta':
        return 'pd'
    if h.kind == 'inv' and h.sym:
        r = definite(eng, h.args[0], h.dims[0])
        return 'pd' if r in ('pd', 'psd') else None
    if eng is not None and len(h.dims) == 2:
        t = TE({((h.uid, (0, 1), 1),): 1})
        for f, v in eng.facts:
            if f.kind == 'pd' and v and isinstance(f.a[0][0], TE) and core.equal(f.a[0][0], t):
                return 'pd'
    return None


def rel_known_zero(t):
    """Does the path fix the (scalar) term to zero?"""
    if t.free() or not Engine._stack:
        return False
    b = rel(t, '==')
    return b is True or (isinstance(b, SymBool) and Engine.cur().known_or_implied(b) is True)
