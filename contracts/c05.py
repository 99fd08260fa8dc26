"""C05  Unscented moments are the weighted sigma-point moments of any function."""
from epv.registry import contract, NM, NS
from contracts.c04 import UF, unscented


class Watch(object):
    """The function, keeping the points it was evaluated at and the values it gave."""

    def __init__(self, f):
        self.f, self.x, self.y, self.calls = f, None, None, 0

    def __call__(self, x):
        self.calls += 1
        y = self.f(x)
        self.x, self.y = x, y
        return y


def weights(c, n, par):
    a, b, k = par
    scale = a * a * (c.size(n) + k)
    w0 = (scale - c.size(n)) / scale
    return scale, w0, w0 + 1 - a * a + b, 1 / (2 * scale)


def parts(c, X, n):
    """centre, plus and minus rows"""
    k = c.size(n)
    return X[0], X[1:1 + k], X[1 + k:]


@contract('C05', UF, cases=NM)
def moments(c):
    """weighted mean, covariance about that mean and cross-covariance of the function values at the sigma points"""
    n, m = c.dim('n'), c.dim('m')
    t, par = unscented(c, n)
    s = c.gaussian('s', n)
    f = Watch(c.func('f', n, m))
    fr = c.freeze(s=s)
    out = c.run(t, f, s)
    fr.unchanged()
    if not c.returns('returned', out):
        return
    mean, cov, cross = out.value
    c.eq('evaluated once', f.calls, 1)
    scale, w0, wc, wi = weights(c, n, par)
    c.eq('2n+1 rows', c.shape(f.x), (1 + 2 * c.size(n), c.size(n)))
    x0, xp, xm = parts(c, f.x, n)
    y0, yp, ym = parts(c, f.y, n)
    c.eq('centre point', x0, s.mean)
    D = xp - s.mean
    c.eq('symmetric points', xm, s.mean - D)
    c.eq('columns of a square root of the covariance', D.T @ D, scale * s.cov)
    mu = w0 * y0 + wi * (c.np.sum(yp, axis=0) + c.np.sum(ym, axis=0))
    c.eq('mean', mean, mu)
    d0 = y0 - mu
    c.eq('covariance', cov, wc * c.np.outer(d0, d0) + wi * ((yp - mu).T @ (yp - mu) + (ym - mu).T @ (ym - mu)))
    c.eq('cross-covariance', cross, wc * c.np.outer(x0 - s.mean, d0)
         + wi * ((xp - s.mean).T @ (yp - mu) + (xm - s.mean).T @ (ym - mu)))
    c.symmetric('covariance symmetric', cov)


@contract('C05', UF, cases=NS)
def reproduces(c):
    """the mean weights sum to one and the sigma points reproduce the mean and covariance of the state"""
    n = c.dim('n')
    t, par = unscented(c, n)
    s = c.gaussian('s', n)
    f = Watch(lambda x: x)
    scale, w0, wc, wi = weights(c, n, par)
    mean, cov, cross = t(f, s)
    c.eq('weights sum to one', w0 + 2 * c.size(n) * wi, 1)
    c.eq('mean', mean, s.mean)
    c.eq('covariance', cov, s.cov)
    c.eq('cross-covariance', cross, s.cov)
    one, zero, _ = t(lambda x: x @ c.np.zeros((c.size(n), 1)) + 1, s)
    c.eq('a constant has its own value as mean', one, c.np.ones((1,)))
    c.eq('a constant has no variance', zero, c.np.zeros((1, 1)))
