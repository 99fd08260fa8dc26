"""C13  Damped power updates use the right cavity and step."""
from epv.registry import contract
from contracts.chain import N, OWN, any_state, chain, expected, step, target
from contracts.c11 import CASES, LONG, FN


def arg(call, i, *names):
    a, k = call
    if i < len(a):
        return a[i]
    for x in names:
        if x in k:
            return k[x]
    return None


@contract('C13', FN, cases=CASES, extra=LONG, trials=12)
def cavity_and_step(c):
    """the projection gets the right cavity; an accepted update is the damped power step; a proper one is accepted"""
    n = c.dim('n')
    kind = c.choice('kind', ['fwd', 'meas', 'back'])
    S = any_state(c, 'S', n)
    ch = chain(c, c.case['len'], n, kind, c.case['pos'], S)
    x = ch.node
    if kind == 'back' and ch.next is None:
        step(c, ch)
        c.true('no projection at the end of the chain', not ch.proj.calls)
        return
    cav = expected(c, ch)
    proper = c.is_pd(S.cov)
    (Lf, hf), (Lq, hq) = target(c, ch) if proper else ((None, None), (None, None))
    out, accepted, q, f = step(c, ch)
    c.eq('projected once', len(ch.proj.calls), 1)
    call = ch.proj.calls[0]
    func, state = arg(call, 0, 'func'), arg(call, 1, 'state')
    c.eq('cavity precision', state.precision, cav[0])
    c.eq('cavity shift', state.shift, cav[1])
    if kind == 'fwd':
        c.true('transition of this step', func == ('transition', ch.pos))
    elif kind == 'meas':
        c.true('measurement function', func == ('measurement', ch.pos))
        c.eq('measurement', arg(call, 2, 'meas'), x.meas)
    else:
        c.true('transition of the next step', func == ('transition', ch.pos + 1))
        nc, ns = arg(call, 2, 'next_fwd_cavity'), arg(call, 3, 'next_state')
        c.eq('next cavity precision', nc.precision, ch.next.marginal.precision - ch.next.forward_factor.precision / ch.power)
        c.eq('next cavity shift', nc.shift, ch.next.marginal.shift - ch.next.forward_factor.shift / ch.power)
        c.eq('next marginal mean', ns.mean, ch.next.marginal.mean)
        c.eq('next marginal covariance', ns.cov, ch.next.marginal.cov)
    if accepted:
        if not proper:
            return c.true('an improper projection is refused', False)
        g = getattr(x, OWN[kind])
        c.eq('factor precision', g.precision, Lf)
        c.eq('factor shift', g.shift, hf)
        c.eq('marginal precision', x.marginal.precision, Lq)
        c.eq('marginal shift', x.marginal.shift, hq)
    else:
        c.true('refused only when improper', not (proper and c.is_pd(Lq)))


@contract('C13', FN, cases=CASES[:4])
def standard(c):
    """power 1, damping 1: the marginal is the projection itself; a projection equal to the marginal changes nothing"""
    n = c.dim('n')
    kind = c.choice('kind', ['meas', 'back'])
    one = c.choice('one', [1, 1.0])
    S = c.gaussian('S', n)
    c.regular(S.precision)
    same = c.choice('equal', [False, True])
    ch = chain(c, 3, n, kind, c.case['pos'] if c.case['len'] == 3 else 0, S, power=c.unit('power') if same else one,
               damping=c.unit('damping') if same else one)
    if kind == 'back' and ch.next is None:
        return
    if same:
        x = ch.node
        ch.proj.result = x.marginal.copy()
        c.regular(x.marginal.precision)
        before = [getattr(x, OWN[kind]), x.marginal]
        out, accepted, q, f = step(c, ch)
        for k, (a, b) in enumerate(zip([getattr(x, OWN[kind]), x.marginal], before)):
            c.eq('precision unchanged', a.precision, b.precision)
            c.eq('shift unchanged', a.shift, b.shift)
        return
    out, accepted, q, f = step(c, ch)
    c.true('accepted', accepted)
    c.eq('mean', ch.node.marginal.mean, S.mean)
    c.eq('covariance', ch.node.marginal.cov, S.cov)
