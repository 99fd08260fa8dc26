"""C02  Products, quotients and powers follow natural-parameter algebra."""
from epv.registry import contract, NS
from contracts.c01 import build, describes

G = 'StateModel.Gaussian:'
FN = [G + 'Gaussian.__mul__', G + 'Gaussian.__truediv__', G + 'Gaussian.__pow__', G + 'Gaussian.__init__',
      G + 'Gaussian.precision', G + 'Gaussian.shift', G + 'moment_to_natural', 'Utils.linalg:symmetrize']
MODES = ['moment', 'natural']


def nat(c, tag, s, L, h):
    c.eq(tag + ' precision', s.precision, L)
    c.eq(tag + ' shift', s.shift, h)


@contract('C02', FN, cases=NS)
def operations(c):
    """product adds, quotient subtracts, power scales precision and shift; operands keep their distributions"""
    n = c.dim('n')
    a, ia, sa = build(c, n, c.choice('a mode', MODES), 'a')
    b, ib, sb = build(c, n, c.choice('b mode', MODES), 'b')
    k = c.scalar('k')
    fr = c.freeze(**dict([('a.' + x, v) for x, v in ia.items()] + [('b.' + x, v) for x, v in ib.items()]))
    op = c.choice('op', ['mul', 'div', 'pow'])
    if op == 'mul':
        nat(c, 'product', a * b, sa[2] + sb[2], sa[3] + sb[3])
    elif op == 'div':
        nat(c, 'quotient', a / b, sa[2] - sb[2], sa[3] - sb[3])
    else:
        nat(c, 'power', a ** k, k * sa[2], k * sa[3])
    describes(c, 'left operand ', a, sa, n)
    describes(c, 'right operand ', b, sb, n)
    fr.unchanged('operation')


@contract('C02', FN, cases=NS)
def improper(c):
    """the operations are the same on states that are not proper distributions (factors), also by integer powers"""
    n = c.dim('n')
    Gaussian = c.mod('StateModel').Gaussian
    L1, h1, L2, h2 = c.symm('L1', n), c.vector('h1', n), c.symm('L2', n), c.vector('h2', n)
    a, b = Gaussian(precision_mat=L1, shift_vec=h1), Gaussian.from_natural(L2, h2)
    fr = c.freeze(L1=L1, h1=h1, L2=L2, h2=h2, a=a, b=b)
    nat(c, 'product', a * b, L1 + L2, h1 + h2)
    nat(c, 'quotient', a / b, L1 - L2, h1 - h2)
    for k in (c.scalar('k'), 2, 0, -1, 0.5):
        nat(c, 'power', a ** k, k * L1, k * h1)
    fr.unchanged('operation')


@contract('C02', FN, cases=NS)
def flat_after_reads(c):
    """the operations on an almost flat factor do not depend on its moments having been read before"""
    n = c.dim('n')
    Gaussian = c.mod('StateModel').Gaussian
    L1, h1 = c.tiny('L1', n), c.vector('h1', n)
    L2, h2 = c.symm('L2', n), c.vector('h2', n)
    a, b = Gaussian(precision_mat=L1, shift_vec=h1), Gaussian(precision_mat=L2, shift_vec=h2)
    fr = c.freeze(L1=L1, h1=h1, L2=L2, h2=h2)
    read = c.choice('read first', ['mean', 'cov'])
    getattr(a, read)
    op = c.choice('op', ['mul', 'div', 'rdiv', 'pow'])
    if op == 'mul':
        nat(c, 'product', a * b, L1 + L2, h1 + h2)
    elif op == 'div':
        nat(c, 'quotient', a / b, L1 - L2, h1 - h2)
    elif op == 'rdiv':
        nat(c, 'quotient', b / a, L2 - L1, h2 - h1)
    else:
        k = c.scalar('k')
        nat(c, 'power', a ** k, k * L1, k * h1)
    fr.unchanged('operation')


@contract('C02', FN, cases=NS)
def laws(c):
    """quotient undoes product, commutativity, associativity, neutral unit factor, laws of powers"""
    n = c.dim('n')
    g = c.mod('StateModel.Gaussian')
    Gaussian = g.Gaussian
    s, _, (_m, _P, L, h) = build(c, n, c.choice('mode', MODES), 's')
    t, _, (_m, _P, L2, h2) = build(c, n, c.choice('t mode', MODES), 't')
    u = Gaussian(precision_mat=c.symm('Lu', n), shift_vec=c.vector('hu', n))
    j, k = c.scalar('j'), c.scalar('k')
    nat(c, 'quotient undoes product', (s * t) / t, L, h)
    nat(c, 'product undoes quotient', (s / t) * t, L, h)
    x, y = s * t, t * s
    c.eq('product commutes: precision', x.precision, y.precision)
    c.eq('product commutes: shift', x.shift, y.shift)
    x, y = (s * t) * u, s * (t * u)
    c.eq('product associates: precision', x.precision, y.precision)
    c.eq('product associates: shift', x.shift, y.shift)
    for one in (Gaussian.as_factor(c.size(n)), g.GaussianFactor(c.size(n))):
        nat(c, 'unit factor is neutral for products', s * one, L, h)
        nat(c, 'unit factor is neutral on the left', one * s, L, h)
        nat(c, 'unit factor is neutral for quotients', s / one, L, h)
    x, y = (s ** j) ** k, s ** (j * k)
    c.eq('powers compose: precision', x.precision, y.precision)
    c.eq('powers compose: shift', x.shift, y.shift)
    x, y = (s * t) ** k, (s ** k) * (t ** k)
    c.eq('powers distribute over products: precision', x.precision, y.precision)
    c.eq('powers distribute over products: shift', x.shift, y.shift)
    x, y = (s ** j) * (s ** k), s ** (j + k)
    c.eq('powers add: precision', x.precision, y.precision)
    c.eq('powers add: shift', x.shift, y.shift)
