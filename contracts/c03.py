"""C03  Degenerate inputs are handled as documented, never silently."""
from epv.registry import contract, NS

G = 'StateModel.Gaussian:'
FN = [G + 'natural_to_moment', 'Utils.linalg:jittered_solve', 'Utils.linalg:jittered_chol', 'Utils.linalg:symmetrize',
      'Utils.linalg:validate_covariance', G + 'Gaussian.as_factor', G + 'Gaussian.as_marginal', G + 'GaussianFactor.__init__']


@contract('C03', FN, cases=NS)
def flat(c):
    """a precision of nuclear norm below 1e-10 is the flat state: zero mean, covariance 1e10 I, whatever the shift"""
    n = c.dim('n')
    g = c.mod('StateModel.Gaussian')
    L, h = c.tiny('L', n), c.vector('h', n)
    fr = c.freeze(L=L, h=h)
    s = g.Gaussian(precision_mat=L, shift_vec=h)
    c.eq('mean', s.mean, c.np.zeros((c.size(n),)))
    c.eq('covariance', s.cov, 1e10 * c.np.eye(c.size(n)))
    m, P = g.natural_to_moment(L, h)
    c.eq('converted mean', m, c.np.zeros((c.size(n),)))
    c.eq('converted covariance', P, 1e10 * c.np.eye(c.size(n)))
    fr.unchanged()


@contract('C03', FN, cases=NS)
def improper(c):
    """a precision that is not positive definite (with the jitter) never becomes a positive-definite covariance"""
    n = c.dim('n')
    g = c.mod('StateModel.Gaussian')
    L, h = c.symm('L', n), c.vector('h', n)
    c.regular(L)
    pd = c.is_pd(L)
    nearly = pd or c.is_pd(L + 1e-10 * c.np.eye(c.size(n)))
    fr = c.freeze(L=L, h=h)
    out = c.run(g.natural_to_moment, L, h)
    if pd:
        if c.returns('a proper precision converts', out):
            c.eq('covariance', out.value[1], c.inv(L))
            c.eq('mean', out.value[0], c.inv(L) @ h)
    elif not nearly and out.ok:
        c.true('covariance is not positive definite', not c.is_pd(out.value[1]))
    fr.unchanged()


@contract('C03', FN, cases=NS)
def starts(c):
    """the unit factor and the flat start are what they are named after"""
    n = c.dim('n')
    g = c.mod('StateModel.Gaussian')
    for f in (g.Gaussian.as_factor(c.size(n)), g.GaussianFactor(c.size(n))):
        c.eq('factor precision', f.precision, c.np.zeros((c.size(n), c.size(n))))
        c.eq('factor shift', f.shift, c.np.zeros((c.size(n),)))
        c.eq('factor dimension', f.dim, c.size(n))
    q = g.Gaussian.as_marginal(c.size(n))
    c.eq('flat mean', q.mean, c.np.zeros((c.size(n),)))
    c.eq('flat covariance', q.cov, 1e10 * c.np.eye(c.size(n)))
    c.eq('flat dimension', q.dim, c.size(n))


JIT = [{'n': 1, 'm': 1}, {'n': 'n', 'm': 'n'}, {'n': 'n', 'm': 'm'}, {'n': 'n', 'm': 1}]


@contract('C03', FN, cases=JIT, trials=16)
def solve(c):
    """the jittered solve solves exactly (A + A^T)/2 + jitter I, with 1e-10 unless given"""
    n, m = c.dim('n'), c.dim('m')
    la = c.mod('Utils.linalg')
    A, B = c.matrix('A', n, n), c.matrix('B', n, m)
    how = c.choice('jitter', ['default', 'None', 'given'])
    j = c.scalar('jit', pos=True) if how == 'given' else 1e-10
    kw = {'jitter': j} if how == 'given' else ({'jitter': None} if how == 'None' else {})
    asm = c.choice('assume_a', ['default', 'gen', 'sym', 'pos'])
    if asm != 'default':
        kw['assume_a'] = asm
    T = (A + A.T) / 2 + j * c.np.eye(c.size(n))
    c.assume(c.nonsingular(T))
    fr = c.freeze(A=A, B=B)
    out = c.run(la.jittered_solve, A, B, **kw)
    if c.returns('solves', out):
        c.eq('solution', T @ out.value, B, tol=3e-4)       # a singular average leaves a condition number of 1e10
    fr.unchanged()


@contract('C03', FN, cases=NS, trials=16)
def chol(c):
    """the jittered Cholesky factors exactly (A + A^T)/2 + jitter I, and raises when that is not positive definite"""
    n = c.dim('n')
    la = c.mod('Utils.linalg')
    A = c.symm('S', n) + c.skew('K', n)
    how = c.choice('jitter', ['default', 'None', 'given'])
    j = c.scalar('jit', pos=True) if how == 'given' else 1e-10
    kw = {'jitter': j} if how == 'given' else ({'jitter': None} if how == 'None' else {})
    low = c.choice('lower', ['default', True, False])
    if low != 'default':
        kw['lower'] = low
    T = (A + A.T) / 2 + j * c.np.eye(c.size(n))
    pd = c.is_pd(T)
    fr = c.freeze(A=A)
    out = c.run(la.jittered_chol, A, **kw)
    if pd:
        if c.returns('factors', out):
            F = out.value
            if low is False:
                c.eq('upper factor', F.T @ F, T)
                c.eq('upper triangular', c.np.triu(F), F)
            else:
                c.eq('lower factor', F @ F.T, T)
                c.eq('lower triangular', c.np.tril(F), F)
    else:
        c.raises('refused', out, c.LinAlgError)
    fr.unchanged()


@contract('C03', FN, cases=NS + [{'n': 2}, {'n': 3}], trials=20)
def helpers(c):
    """symmetrise is the average with the transpose; validation raises exactly for improper covariances"""
    n = c.dim('n')
    la = c.mod('Utils.linalg')
    A = c.matrix('A', n, n)
    fr = c.freeze(A=A)
    c.eq('symmetrised', la.symmetrize(A), (A + A.T) / 2)
    fr.unchanged()
    P, m = c.symm('P', n), c.vector('m', n)
    s = c.mod('StateModel').Gaussian(m, P)
    pd = c.is_pd(P)
    fr = c.freeze(P=P, m=m)
    out = c.run(la.validate_covariance, s)
    if pd:
        c.returns('valid covariance accepted', out)
    else:
        c.raises('invalid covariance refused', out, c.LinAlgError)
    fr.unchanged()
