"""C06  Taylor moments are the first-order moments of any differentiable function."""
from epv.registry import contract, NM
from contracts.c04 import TF


@contract('C06', TF, cases=NM, tol=1e-5)
def moments(c):
    """function value at the mean, J P J^T and P J^T, of shapes (m,), (m, m), (n, m)"""
    n, m = c.dim('n'), c.dim('m')
    t = c.mod('MomentMatching').TaylorTransform()
    s = c.gaussian('s', n, c.choice('mode', ['moment', 'natural']))
    if not c.symbolic:
        s.mean
    else:
        c.regular(s.precision)
    style = c.choice('style', ['vec', 'row1'])
    f = c.func('f', n, m, style=style)
    fr = c.freeze(s=s)
    out = c.run(t, f, s)
    if c.returns('returned', out):
        mean, cov, cross = out.value
        J = f.jac(s.mean)
        y = c.np.reshape(f(s.mean), (c.size(m),))
        c.eq('mean', mean, y)
        c.eq('covariance', cov, J @ s.cov @ J.T)
        c.eq('cross-covariance', cross, s.cov @ J.T)
        c.symmetric('covariance symmetric', cov)
    fr.unchanged()
