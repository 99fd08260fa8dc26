"""C01  A Gaussian state is one distribution in every parameterisation."""
from epv.registry import contract, NS

G = 'StateModel.Gaussian:'
FN = [G + 'Gaussian.__init__', G + 'Gaussian.mean', G + 'Gaussian.cov', G + 'Gaussian.precision', G + 'Gaussian.shift',
      G + 'Gaussian.dim', G + 'Gaussian.chol_cov', G + 'Gaussian.copy', G + 'Gaussian.from_natural',
      G + 'natural_to_moment', G + 'moment_to_natural', 'Utils.linalg:symmetrize']
READS = ['mean', 'cov', 'precision', 'shift', 'dim', 'chol_cov']


def build(c, n, mode, name='s'):
    """A state together with the moments and natural parameters it must describe."""
    Gaussian = c.mod('StateModel').Gaussian
    if mode == 'moment':
        m, P = c.vector(name + '.m', n), c.pd(name + '.P', n)
        L = c.inv(P)
        return Gaussian(m, P), dict(m=m, P=P), (m, P, L, L @ m)
    L, h = c.pd(name + '.L', n), c.vector(name + '.h', n)
    c.regular(L)
    P = c.inv(L)
    if mode == 'natural':
        s = Gaussian(precision_mat=L, shift_vec=h)
    else:
        s = Gaussian.from_natural(L, h)
    return s, dict(L=L, h=h), (P @ h, P, L, h)


def describes(c, tag, s, spec, n):
    m, P, L, h = spec
    c.eq(tag + 'mean', s.mean, m)
    c.eq(tag + 'covariance', s.cov, P)
    c.eq(tag + 'precision', s.precision, L)
    c.eq(tag + 'shift', s.shift, h)
    c.eq(tag + 'dimension', s.dim, c.size(n))
    C = s.chol_cov
    c.eq(tag + 'factor times its transpose is the covariance', C @ C.T, P)


def read(c, s, a, spec, n):
    """One read of one parameter: its value is the specified one."""
    m, P, L, h = spec
    v = getattr(s, a)
    if a == 'chol_cov':
        c.eq('read ' + a, v @ v.T, P)
        c.eq('factor is lower triangular', c.np.tril(v), v)
    else:
        c.eq('read ' + a, v, {'mean': m, 'cov': P, 'precision': L, 'shift': h, 'dim': c.size(n)}[a])


@contract('C01', FN, cases=NS, trials=40)
def any_reading_order(c):
    """every parameter read, after any reads before it, describes the given distribution; inputs are not altered"""
    n = c.dim('n')
    mode = c.choice('mode', ['moment', 'natural', 'from_natural'])
    s, ins, spec = build(c, n, mode)
    fr = c.freeze(**ins)
    for k in ('first', 'second', 'third'):
        read(c, s, c.choice(k, READS), spec, n)
    fr.unchanged('reading parameters')


@contract('C01', FN, cases=NS)
def all_parameters(c):
    """all six parameters agree, and read again they are the same"""
    n = c.dim('n')
    mode = c.choice('mode', ['moment', 'natural', 'from_natural'])
    s, ins, spec = build(c, n, mode)
    fr = c.freeze(**ins)
    order = c.choice('order', [0, 1])
    if order:
        for a in ('shift', 'chol_cov', 'dim', 'cov', 'precision', 'mean'):
            getattr(s, a)
    describes(c, '', s, spec, n)
    describes(c, 'again ', s, spec, n)
    c.symmetric('covariance symmetric', s.cov)
    c.symmetric('precision symmetric', s.precision)
    fr.unchanged('reading parameters')


@contract('C01', FN, cases=NS)
def round_trip(c):
    """converting to the other form and back recovers the original"""
    n = c.dim('n')
    Gaussian = c.mod('StateModel').Gaussian
    mode = c.choice('mode', ['moment', 'natural'])
    s, ins, spec = build(c, n, mode)
    if mode == 'moment':
        c.regular(spec[2])
        t = Gaussian.from_natural(s.precision, s.shift)
    else:
        t = Gaussian(s.mean, s.cov)
    describes(c, 'other form ', t, spec, n)
    describes(c, 'original ', s, spec, n)


@contract('C01', FN, cases=NS)
def copies(c):
    """a copy describes the same distribution, before and after parameters were read, and is another object"""
    n = c.dim('n')
    mode = c.choice('mode', ['moment', 'natural', 'from_natural'])
    s, ins, spec = build(c, n, mode)
    a = c.choice('read first', ['nothing'] + READS)
    if a != 'nothing':
        getattr(s, a)
    t = s.copy()
    c.true('another object', t is not s)
    describes(c, 'copy ', t, spec, n)
    describes(c, 'copied ', s, spec, n)


@contract('C01', FN, cases=[{'n': 1}])
def scalars(c):
    """a scalar mean (shift) describes the one-dimensional distribution"""
    n = c.dim('n')
    Gaussian = c.mod('StateModel').Gaussian
    x, P = c.scalar('x'), c.pd('P', n)
    nat = c.choice('natural', [False, True])
    if nat:
        c.regular(P)
        s = Gaussian(precision_mat=P, shift_vec=x)
        K = c.inv(P)
        describes(c, '', s, (K @ c.np.array([x]), K, P, c.np.array([x])), n)
    else:
        s = Gaussian(x, P)
        K = c.inv(P)
        describes(c, '', s, (c.np.array([x]), P, K, K @ c.np.array([x])), n)
