"""C12  Marginal equals the flat start times the factors, after any updates."""
from epv.registry import contract
from contracts.chain import N, OWN, any_state, chain, step, nat
from contracts.c11 import CASES, LONG

FN = [N + 'Node.fwd_update', N + 'Node.meas_update', N + 'Node.back_update', N + 'Node.power_update', N + 'Node.__init__',
      N + 'build_nodes', N + 'node_estimator', 'StateModel.Gaussian:Gaussian.__mul__', 'StateModel.Gaussian:Gaussian.__truediv__',
      'StateModel.Gaussian:Gaussian.__pow__', 'StateModel.Gaussian:Gaussian.as_factor', 'StateModel.Gaussian:Gaussian.as_marginal']


def invariant(c, tag, x, flat, p):
    L = flat.precision + (x.forward_factor.precision + x.measurement_factor.precision + x.back_factor.precision) / p
    h = flat.shift + (x.forward_factor.shift + x.measurement_factor.shift + x.back_factor.shift) / p
    c.eq(tag + 'precision', x.marginal.precision, L)
    c.eq(tag + 'shift', x.marginal.shift, h)


@contract('C12', FN, cases=CASES, extra=LONG, trials=12)
def preserved(c):
    """every update, accepted or not, preserves marginal = flat * (forward * measurement * backward)^(1/power)"""
    n = c.dim('n')
    kind = c.choice('kind', ['fwd', 'meas', 'back'])
    S = any_state(c, 'S', n)
    ch = chain(c, c.case['len'], n, kind, c.case['pos'], S, invariant=True)
    flat = c.mod('StateModel').Gaussian.as_marginal(c.size(n))
    invariant(c, 'before: ', ch.node, flat, ch.power)
    out, accepted, q, f = step(c, ch)
    invariant(c, 'after: ', ch.node, flat, ch.power)


@contract('C12', FN, cases=[{'n': d, 'len': l} for d in (1, 'n') for l in (1, 2, 3)])
def fresh(c):
    """fresh nodes satisfy it, for every power"""
    n = c.dim('n')
    nd = c.mod('ExpectationPropagation.Nodes')
    p = c.unit('power')
    flat = c.mod('StateModel').Gaussian.as_marginal(c.size(n))
    for x in nd.build_nodes(c.case['len'], c.size(n)):
        invariant(c, '', x, flat, p)


@contract('C12', FN, cases=[{'n': 1}, {'n': 'n'}])
def dividing_out(c):
    """dividing out one factor leaves the information of the others (power 1)"""
    n = c.dim('n')
    ch = chain(c, 3, n, 'fwd', 1, None, power=1, invariant=True)
    flat = c.mod('StateModel').Gaussian.as_marginal(c.size(n))
    x = ch.node
    f, m, b = x.forward_factor, x.measurement_factor, x.back_factor
    for own, o1, o2 in ((f, m, b), (m, f, b), (b, f, m)):
        cav = x.marginal / own
        c.eq('precision', cav.precision, flat.precision + o1.precision + o2.precision)
        c.eq('shift', cav.shift, flat.shift + o1.shift + o2.shift)
