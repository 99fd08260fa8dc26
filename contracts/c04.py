"""C04  Taylor and unscented transforms are exact on affine maps."""
from epv.registry import contract, NM

T = 'MomentMatching.TaylorLinearisation:TaylorTransform.'
U = 'MomentMatching.UnscentedTransform:UnscentedTransform.'
TF = [T + '__init__', T + '_transform', 'MomentMatching.MomentMatch:MappingTransform.__call__', 'MomentMatching.MomentMatch:MappingTransform.__init__']
UF = [U + '__init__', U + '_weights', U + '_sigma_points', U + '_transform', 'MomentMatching.MomentMatch:MappingTransform.__call__',
      'MomentMatching.MomentMatch:MappingTransform.__init__', 'Utils.linalg:symmetrize']


def unscented(c, n, how=None):
    """An unscented transform for dimension n with any parameters of positive scale; and those parameters."""
    UT = c.mod('MomentMatching').UnscentedTransform
    how = how or c.choice('parameters', ['given', 'default'])
    if how == 'default':
        return UT(dim=c.size(n)), (1, 2, 1)
    alpha = c.scalar('alpha', pos=True)
    beta = c.scalar('beta')
    kappa = c.scalar('n_plus_kappa', pos=True) - c.size(n)
    return UT(dim=c.size(n), alpha=alpha, beta=beta, kappa=kappa), (alpha, beta, kappa)


def affine(c, n, m, style):
    A, b = c.matrix('A', m, n), c.vector('b', m)
    if style == 'vector':
        return A, b, lambda x: A @ x + b
    return A, b, lambda x: x @ A.T + b


def moments(c, out, s, A, b):
    if c.returns('returned', out):
        mean, cov, cross = out.value
        c.eq('mean', mean, A @ s.mean + b)
        c.eq('covariance', cov, A @ s.cov @ A.T)
        c.eq('cross-covariance', cross, s.cov @ A.T)


@contract('C04', TF, cases=NM)
def taylor(c):
    """Taylor transform of an affine map is exact"""
    n, m = c.dim('n'), c.dim('m')
    t = c.mod('MomentMatching').TaylorTransform()
    A, b, f = affine(c, n, m, c.choice('style', ['rows', 'vector']))
    s = c.gaussian('s', n, c.choice('mode', ['moment', 'natural']))
    if not c.symbolic:
        s.mean
    else:
        c.regular(s.precision)
    fr = c.freeze(s=s)
    out = c.run(t, f, s)
    moments(c, out, s, A, b)
    fr.unchanged()


@contract('C04', UF, cases=NM)
def unscented_transform(c):
    """unscented transform of an affine map is exact, for every parameter setting"""
    n, m = c.dim('n'), c.dim('m')
    t, par = unscented(c, n)
    A, b, f = affine(c, n, m, 'rows')
    s = c.gaussian('s', n, c.choice('mode', ['moment', 'natural']))
    if not c.symbolic:
        s.mean
    else:
        c.regular(s.precision)
    fr = c.freeze(s=s)
    out = c.run(t, f, s)
    moments(c, out, s, A, b)
    fr.unchanged()
