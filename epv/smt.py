"""z3 back end for scalar path conditions (nonlinear real arithmetic; indexed atoms are opaque reals)."""
import math
import time
from fractions import Fraction
import z3
from . import core
from .core import HEADS, TE

_cache = {}
STATS = {'calls': 0, 'time': 0.0, 'proved': 0}


def to_z3(t, side, memo):
    tot = None
    if memo.get('int'):
        t = t.scale(math.lcm(*[Fraction(v).denominator for v in t.d.values()]) if t.d else 1)
    for k, v in t.d.items():
        x = z3.IntVal(int(v)) if memo.get('int') else z3.RealVal(str(v))
        for (u, s, e) in k:
            a = atom_var(u, s, side, memo)
            if e > 0:
                for _ in range(min(e, 8)):
                    x = x * a
            else:
                for _ in range(min(-e, 8)):
                    x = x / a
        tot = x if tot is None else tot + x
    return tot if tot is not None else z3.IntVal(0) if memo.get('int') else z3.RealVal(0)


def atom_var(u, s, side, memo):
    key = (u, s)
    v = memo.get(key)
    if v is not None:
        return v
    h = HEADS[u]
    if memo.get('int'):
        v = z3.Int('i%d' % u)
    else:
        v = z3.Real('a%d_%s' % (u, '_'.join(str(x) for x in s)))
    memo[key] = v
    if h.meta.get('pos') or h.kind in ('exp', 'cosh'):
        side.append(v > 0)
    if h.meta.get('nonneg') or h.kind in ('abs', 'sqrt') or h.name in ('nucnorm', 'norm'):
        side.append(v >= 0)
    if h.meta.get('lo') is not None:
        side.append(v >= (z3.IntVal(int(h.meta['lo'])) if memo.get('int') else z3.RealVal(str(h.meta['lo']))))
    if h.meta.get('hi') is not None:
        side.append(v <= z3.RealVal(str(h.meta['hi'])))
    if h.kind in ('sin', 'cos', 'tanh'):
        side += [v >= -1, v <= 1]
    if not s and h.kind == 'recip':
        p = to_z3(h.args[0], side, memo)
        side.append(v * p == 1)
    if not s and h.kind == 'sqrt':
        p = to_z3(h.args[0], side, memo)
        side.append(v * v == p)
    return v


def cond(sb, side, memo):
    k = sb.kind
    if k == 'const':
        return z3.BoolVal(sb.a[0])
    if k == 'rel':
        x = to_z3(sb.a[0], side, memo)
        return {'==': x == 0, '<': x < 0, '<=': x <= 0}[sb.a[1]]
    if k == 'not':
        c = cond(sb.a[0], side, memo)
        return None if c is None else z3.Not(c)
    if k in ('and', 'or'):
        cs = [cond(x, side, memo) for x in sb.a]
        if any(c is None for c in cs):
            return None
        return z3.And(*cs) if k == 'and' else z3.Or(*cs)
    if k == 'pd' and not isinstance(sb.a[0][0], TE) and len(sb.a[0]) == 1:
        return to_z3(sb.a[0][0][0], side, memo) > 0
    return None


def path_condition(eng, side, memo):
    out = []
    for f, v in eng.facts:
        c = cond(f, side, memo)
        if c is not None:
            out.append(c if v else z3.Not(c))
    return out


def check(constraints, timeout=300):
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in constraints:
        s.add(c)
    t = time.time()
    r = s.check()
    STATS['calls'] += 1
    STATS['time'] += time.time() - t
    return r, s


def skey(sb):
    k = sb.kind
    if k == 'const':
        return sb.a[0]
    if k == 'rel':
        return (sb.a[1], frozenset(sb.a[0].d.items()))
    if k == 'not':
        return ('!', skey(sb.a[0]))
    if k in ('and', 'or'):
        return (k,) + tuple(skey(x) for x in sb.a)
    if k == 'pd' and not isinstance(sb.a[0][0], TE) and len(sb.a[0]) == 1:
        return ('pd', frozenset(sb.a[0][0][0].d.items()))
    return None


def atoms(sb, out):
    k = sb.kind
    te = None
    if k == 'rel':
        te = sb.a[0]
    elif k in ('not', 'and', 'or'):
        for x in sb.a:
            atoms(x, out)
    elif k == 'pd' and not isinstance(sb.a[0][0], TE) and len(sb.a[0]) == 1:
        te = sb.a[0][0][0]
    if te is not None:
        todo = [te]
        while todo:
            t = todo.pop()
            for m in t.d:
                for (u, s, e) in m:
                    if (u, s) not in out:
                        out.add((u, s))
                        h = HEADS[u]
                        if not s and h.kind in ('recip', 'sqrt'):
                            todo.append(h.args[0])
                    if e < 0:
                        out.add((u, s + ('recip',)))
    return out


def on_index(a):
    return not a[1] and bool(HEADS[a[0]].meta.get('index'))


def decide(eng, sb):
    """True/False when the path condition implies sb / its negation, else None.

    Only the facts that share atoms (transitively) with sb take part: leaving facts out can lose an
    answer but never invent one."""
    goal = skey(sb)
    if goal is None:
        return None
    live = []
    for f, v in eng.facts:
        fk = skey(f)
        if fk is not None:
            live.append((f, v, (fk, v), atoms(f, set())))
    reach = atoms(sb, set())
    # a condition on positions alone is one of integer arithmetic
    ints = bool(reach) and all(on_index(a) for a in reach)
    if ints:
        live = [it for it in live if all(on_index(a) for a in it[3])]
    used, grew = [], True
    while grew:
        grew = False
        rest = []
        for it in live:
            if it[3] & reach:
                reach |= it[3]
                used.append(it)
                grew = True
            else:
                rest.append(it)
        live = rest
    key = (goal, ints, frozenset(it[2] for it in used))
    if key in _cache:
        return _cache[key]
    side, memo = [], ({'int': True} if ints else {})
    c = cond(sb, side, memo)
    if c is None:
        return None
    pc = []
    for f, v, _, _ in used:
        z = cond(f, side, memo)
        if z is not None:
            pc.append(z if v else z3.Not(z))
    r, _ = check(pc + side + [z3.Not(c)])
    out = None
    if r == z3.unsat:
        out = True
    else:
        r, _ = check(pc + side + [c])
        if r == z3.unsat:
            out = False
    if out is not None:
        STATS['proved'] += 1
    _cache[key] = out
    return out
