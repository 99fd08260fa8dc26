"""C09  Measurement update: exact Gaussian conditioning on the observation."""
from epv.registry import contract, NM
from contracts.c08 import estimator

FN = ['MomentMatching.Estimator:Estimator.proj_meas', 'MomentMatching.Estimator:Estimator.__init__',
      'Utils.linalg:symmetrize']


@contract('C09', FN, cases=NM)
def conditioning(c):
    """posterior mean m + C S^-1 (y - z), covariance P - C S^-1 C^T; refused unless P and S are positive definite"""
    n, m = c.dim('n'), c.dim('m')
    G = c.mod('StateModel').Gaussian
    R = c.symm('R', m)
    est, T, M, Q, R, p = estimator(c, n, m, R=R, noise=None)
    mean, P = c.vector('s.m', n), c.symm('s.P', n)
    s = G(mean, P)
    h = c.func('h', n, m)
    y = c.vector('y', m)
    fr = c.freeze(mean=mean, P=P, R=R, est=est, y=y)
    out = c.run(est.proj_meas, h, s, y)
    fr.unchanged()
    if c.is_pd(P):
        z, Sz, C = M(h, s)
        S = Sz + R / p
        if c.is_pd(S):
            if c.returns('proper update is returned', out):
                K = C @ c.inv(S)
                c.eq('mean', out.value.mean, mean + K @ (y - z))
                c.eq('cov', out.value.cov, P - K @ C.T)
                c.symmetric('symmetric', out.value.cov)
                c.psd_holds('never exceeds the prior', P - out.value.cov)
            return
    c.raises('improper update is refused', out, c.LinAlgError)


@contract('C09', FN, cases=[{'n': 1, 'm': 1}, {'n': 'n', 'm': 1}])
def scalar_measurement(c):
    """a scalar (0-d) measurement keeps the mean a vector of the state dimension"""
    n, m = c.dim('n'), c.dim('m')
    est, T, M, Q, R, p = estimator(c, n, m, noise=None)
    s = c.gaussian('s', n)
    h = c.func('h', n, m)
    y = c.scalar('y')
    z, Sz, C = M(h, s)
    for meas in (y, c.np.squeeze(c.np.array([y]))):
        out = c.run(est.proj_meas, h, s, meas)
        if c.returns('returned', out):
            K = C @ c.inv(Sz + R / p)
            c.eq('mean', out.value.mean, s.mean + K @ (c.np.array([y]) - z))
            c.eq('shape', c.np.ndim(out.value.mean), 1)
            c.eq('cov', out.value.cov, s.cov - K @ C.T)


class Affine(object):
    """Exact moments of an affine measurement (what the Taylor and unscented transforms return on one, C04)."""

    def __init__(self, H, b):
        self.H, self.b = H, b

    def __call__(self, func, s):
        return self.H @ s.mean + self.b, self.H @ s.cov @ self.H.T, s.cov @ self.H.T


@contract('C09', FN, cases=NM)
def affine_bayes(c):
    """affine measurement: posterior precision P^-1 + power H^T R^-1 H and shift P^-1 m + power H^T R^-1 (y - b)"""
    n, m = c.dim('n'), c.dim('m')
    E = c.get('MomentMatching.Estimator:Estimator')
    H, b = c.matrix('H', m, n), c.vector('b', m)
    R, p = c.pd('R', m), c.unit('power')
    est = E(Affine(H, b), Affine(H, b), R, R, p, 1)
    s = c.gaussian('s', n)
    y = c.vector('y', m)
    out = c.run(est.proj_meas, None, s, y)
    if c.returns('returned', out):
        Ri = c.inv(R)
        Pi = c.inv(s.cov)
        L = Pi + p * (H.T @ Ri @ H)
        c.eq('precision times covariance is the identity', L @ out.value.cov, c.np.eye(c.size(n)))
        c.eq('precision times mean is the shift', L @ out.value.mean, Pi @ s.mean + p * (H.T @ Ri @ (y - b)))
