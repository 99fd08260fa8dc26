"""C08  Time update: predicted moments plus noise, scaled by the power."""
from epv.registry import contract, NS

FN = ['MomentMatching.Estimator:Estimator.proj_trans', 'MomentMatching.Estimator:Estimator.__init__',
      'Utils.linalg:symmetrize']


def estimator(c, n, m=None, power=None, noise='Q', R=None):
    E = c.get('MomentMatching.Estimator:Estimator')
    m = m or n
    T = c.transform('T', n, n)
    M = c.transform('M', n, m)
    Q = c.symm(noise, n) if noise else c.psd('Q', n)
    R = R if R is not None else c.pd('R', m)
    p = c.unit('power') if power is None else power
    return E(T, M, trans_noise=Q, meas_noise=R, power=p, damping=c.unit('damping')), T, M, Q, R, p


@contract('C08', FN, cases=NS)
def moments(c):
    """predicted moments: mean of the transform, (T + Q) / power, symmetric; refused when not positive definite"""
    n = c.dim('n')
    est, T, M, Q, R, p = estimator(c, n)
    s = c.gaussian('s', n)
    f = c.func('f', n, n)
    mu, S, _ = T(f, s)
    fr = c.freeze(state=s, est=est, Q=Q)
    out = c.run(est.proj_trans, f, s)
    want = (S + Q) / p
    if c.is_pd(want):
        if c.returns('positive definite prediction is returned', out):
            r = out.value
            c.eq('mean', r.mean, mu)
            c.eq('cov', r.cov, want)
            c.symmetric('symmetric', r.cov)
    else:
        c.raises('indefinite prediction is refused', out, c.LinAlgError)
    fr.unchanged()


@contract('C08', FN, cases=NS)
def standard(c):
    """power 1 (also by default) is the standard prediction"""
    n = c.dim('n')
    E = c.get('MomentMatching.Estimator:Estimator')
    T = c.transform('T', n, n)
    Q = c.pd('Q', n)
    s = c.gaussian('s', n)
    f = c.func('f', n, n)
    mu, S, _ = T(f, s)
    for est in (E(T, T, Q, Q), E(trans_map=T, meas_map=T, trans_noise=Q, meas_noise=Q, power=1, damping=1)):
        out = c.run(est.proj_trans, f, s)
        if c.returns('returned', out):
            c.eq('mean', out.value.mean, mu)
            c.eq('cov', out.value.cov, S + Q)
        c.eq('default power', est.power, 1)
        c.eq('default damping', est.damping, 1)


@contract('C08', FN, cases=NS)
def repeated(c):
    """a second projection with the same estimator gives the same prediction"""
    n = c.dim('n')
    E = c.get('MomentMatching.Estimator:Estimator')
    T = c.transform('T', n, n)
    Q = c.pd('Q', n)
    p = c.unit('power')
    est = E(T, T, Q, Q, p, 1)
    s, s2 = c.gaussian('s', n), c.gaussian('s2', n)
    f = c.func('f', n, n)
    c.run(est.proj_trans, f, s2)
    c.run(est.proj_trans, f, s)
    mu, S, _ = T(f, s)
    out = c.run(est.proj_trans, f, s)
    if c.returns('returned', out):
        c.eq('mean', out.value.mean, mu)
        c.eq('cov', out.value.cov, (S + Q) / p)
