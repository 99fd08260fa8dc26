"""C10  Backward update: smoothing against the next state."""
from epv.registry import contract, NS
from contracts.c08 import estimator

FN = ['MomentMatching.Estimator:Estimator.proj_back', 'MomentMatching.Estimator:Estimator.__init__',
      'StateModel.Gaussian:Gaussian.__mul__', 'StateModel.Gaussian:Gaussian.__pow__', 'Utils.linalg:symmetrize']


def spec(c, T, f, s, Q, p, mp, Pp):
    mu, S0, C = T(f, s)
    S = S0 + Q / p
    J = C @ c.inv(S)
    return s.mean + J @ (mp - mu), s.cov + J @ (Pp - S) @ J.T


@contract('C10', FN, cases=NS)
def standard(c):
    """power 1 and a next marginal: smooth towards that marginal"""
    n = c.dim('n')
    one = c.choice('one', [1, 1.0])
    est, T, M, Q, R, p = estimator(c, n, power=one, noise=None)
    s, nxt, cav = c.gaussian('s', n), c.gaussian('next', n), c.gaussian('cavity', n)
    f = c.func('f', n, n)
    fr = c.freeze(state=s, next=nxt, cavity=cav, est=est, Q=Q)
    mu, S0, C = T(f, s)
    if c.is_pd(S0 + Q):
        out = c.run(est.proj_back, f, s, cav, nxt)
        if c.returns('returned', out):
            m, P = spec(c, T, f, s, Q, 1, nxt.mean, nxt.cov)
            c.eq('mean', out.value.mean, m)
            c.eq('cov', out.value.cov, P)
            c.symmetric('symmetric', out.value.cov)
        fr.unchanged()


def product(c, mu, S, cav, p):
    L = c.inv(S) + p * c.inv(cav.cov)
    P = c.inv(L)
    return P @ (c.inv(S) @ mu + p * (c.inv(cav.cov) @ cav.mean)), P


@contract('C10', FN, cases=NS)
def power(c):
    """power below 1: smooth towards the product of the prediction and the powered forward cavity"""
    n = c.dim('n')
    p = c.unit('power')
    est, T, M, Q, R, p = estimator(c, n, power=p, noise=None)
    s, cav, nxt = c.gaussian('s', n), c.gaussian('cavity', n), c.gaussian('next', n)
    f = c.func('f', n, n)
    given = c.choice('given', [True, False])
    c.assume(not (p == 1 and given))
    Q2 = c.pd('Qpd', n)
    est.transition_noise = Q2
    fr = c.freeze(state=s, next=nxt, cavity=cav, est=est, Q=Q2)
    mu, S0, C = T(f, s)
    c.regular(c.inv(S0 + Q2 / p) + p * c.inv(cav.cov))
    out = c.run(est.proj_back, f, s, cav, nxt if given else None)
    if c.returns('returned', out):
        q = product(c, mu, S0 + Q2 / p, cav, p)
        m, P = spec(c, T, f, s, Q2, p, q[0], q[1])
        c.eq('mean', out.value.mean, m)
        c.eq('cov', out.value.cov, P)
        c.symmetric('symmetric', out.value.cov)
    fr.unchanged()
