"""C07  Monte Carlo moments are the sample moments of the propagated draws."""
from epv.registry import contract, NM, NS
from contracts.c05 import Watch

M = 'MomentMatching.MonteCarloTransform:MonteCarloTransform.'
FN = [M + '__init__', M + '_transform', M + 'sample_covariance', 'StateModel.Gaussian:Gaussian.sample']


@contract('C07', FN, cases=[dict(k, k='k') for k in NM] + [{'n': 1, 'm': 1, 'k': 2}])
def moments(c):
    """sample mean, unbiased covariance and cross-covariance of exactly the draws the function was applied to"""
    n, m, k = c.dim('n'), c.dim('m'), c.dim('k')
    s = c.gaussian('s', n)
    t = c.mod('MomentMatching').MonteCarloTransform(dim=c.size(n), number_of_samples=c.size(k))
    f = Watch(c.func('f', n, m))
    fr = c.freeze(s=s)
    out = c.run(t, f, s)
    fr.unchanged()
    if not c.returns('returned', out):
        return
    mean, cov, cross = out.value
    c.eq('evaluated once', f.calls, 1)
    c.eq('one row per draw', c.shape(f.x), (c.size(k), c.size(n)))
    mu, mx = c.np.mean(f.y, axis=0), c.np.mean(f.x, axis=0)
    c.eq('mean', mean, mu)
    c.eq('covariance', cov, (f.y - mu).T @ (f.y - mu) / (c.size(k) - 1))
    c.eq('cross-covariance', cross, (f.x - mx).T @ (f.y - mu) / (c.size(k) - 1))


@contract('C07', FN, cases=NS, trials=3)
def draws(c):
    """the points are independent draws from the state"""
    n = c.dim('n')
    s = c.gaussian('s', n, c.choice('mode', ['moment', 'natural']))
    if not c.symbolic:
        s.mean
    else:
        c.regular(s.precision)
    MC = c.mod('MomentMatching').MonteCarloTransform

    def points(k):
        f = Watch(lambda x: x)
        MC(dim=c.size(n), number_of_samples=k)(f, s)
        return f.x
    c.law('points', points, s.mean, s.cov, rows=c.size(c.dim('k')))


@contract('C07', FN, cases=NS, trials=2)
def default_count(c):
    """10000 samples unless configured"""
    n = c.dim('n')
    t = c.mod('MomentMatching').MonteCarloTransform(dim=c.size(n))
    s = c.gaussian('s', n)
    f = Watch(lambda x: x)
    t(f, s)
    c.eq('draws', c.shape(f.x)[0], 10000)
