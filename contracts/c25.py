"""C25  Scores and comparisons of Gaussian states are the statistical ones."""
from epv.registry import contract, NS
from contracts.scores import nll_of

G = 'StateModel.Gaussian:Gaussian.'
FN = [G + 'nll', G + 'squared_error', G + 'sample', G + '__eq__']
MET = ['Utils.Metrics:rmse', 'Utils.Metrics:nll', 'Utils.Metrics:node_metrics']


def state(c, name, n):
    """A state in either parameterisation, maybe with parameters already read."""
    mode = c.choice(name + ' mode', ['moment', 'natural'])
    s = c.gaussian(name, n, mode)
    if mode == 'natural':
        c.regular(s.precision)
        s = c.mod('StateModel').Gaussian(precision_mat=s.precision, shift_vec=s.shift)
    return s


def moments(c, s):
    """The mean and covariance of a state, without asking it."""
    if s._mode == 'natural':
        P = c.inv(s.precision)
        return P @ s.shift, P
    return s.mean, s.cov


def point(c, name, n):
    """A point and one of the shapes it is scored in."""
    x = c.vector(name, n)
    return x, (c.np.reshape(x, (1, c.size(n))) if c.choice(name + ' row', [False, True]) else x)


@contract('C25', FN, cases=NS, trials=16)
def scores(c):
    """negative log density and squared Euclidean distance of a point"""
    n = c.dim('n')
    s = state(c, 's', n)
    m, P = moments(c, s)
    x, arg = point(c, 'x', n)
    s.mean
    fr = c.freeze(state=s, x=arg)
    c.eq('negative log-likelihood', s.nll(arg), nll_of(c, m, P, x, n))
    d = x - m
    c.eq('squared error', s.squared_error(arg), d @ d)
    fr.unchanged()


@contract('C25', FN, cases=NS, trials=4)
def samples(c):
    """samples are independent draws from the state, as many as asked"""
    n = c.dim('n')
    s = state(c, 's', n)
    m, P = moments(c, s)
    s.mean
    fr = c.freeze(state=s)
    k = c.size(c.dim('k'))
    c.eq('requested count', c.shape(s.sample(k)), (k, c.size(n)))
    c.law('samples', s.sample, m, P, rows=k)
    fr.unchanged()
    c.true('only the global generator', not c.events('other-generator', 'seed'))


@contract('C25', FN, cases=NS, trials=4)
def number_of_samples(c):
    """one sample is one row; zero samples none"""
    n = c.dim('n')
    s = c.gaussian('s', n)
    c.eq('one', c.shape(s.sample(1)), (1, c.size(n)))
    c.eq('three', c.shape(s.sample(3)), (3, c.size(n)))


@contract('C25', FN, cases=NS, trials=40)
def equality(c):
    """equal exactly when means and covariances agree within relative and absolute tolerance 1e-3"""
    n = c.dim('n')
    a = c.gaussian('a', n)
    how = c.choice('other', ['any', 'same', 'mean near', 'cov near', 'mean off', 'cov off'] + ([] if c.symbolic else ['one covariance off']))
    St = c.mod('StateModel').Gaussian
    np = c.np
    if how == 'any':
        b = c.gaussian('b', n)
    else:
        e, s = c.scalar('e', lo=0, hi=1), c.scalar('sign', lo=-1, hi=1)
        size = (0.9 if 'near' in how else 1.2) * (1 if 'off' in how else e)
        s = 1 if c.symbolic else (1 if s > 0 else -1)
        m, P = a.mean, a.cov
        if 'mean' in how:
            m = m + s * size * (1e-3 + 1e-3 * abs(m)) * (1 if c.symbolic or 'near' in how else onehot(c, n))
        if 'one cov' in how:
            i = c.choice('covariance', [0, c.size(n) - 1])
            P = P + 0
            P[0, i] += s * size * (1e-3 + 1e-3 * abs(P[0, i]))
            P[i, 0] = P[0, i]
        elif 'cov' in how:
            P = P + s * size * (1e-3 + 1e-3 * abs(P))
        b = St(m + 0, P + 0)
    fr = c.freeze(a=a, b=b)
    want = bool(np.allclose(a.mean, b.mean, rtol=1e-3, atol=1e-3)) and bool(np.allclose(a.cov, b.cov, rtol=1e-3, atol=1e-3))
    c.true('equal exactly when close', bool(a == b) == want)
    c.true('a state equals itself', bool(a == a))
    c.true('a state equals its copy', bool(a == a.copy()))
    fr.unchanged()


def onehot(c, n):
    """All or one of the entries."""
    v = c.np.zeros(c.size(n))
    v[c.choice('entry', [0, -1])] = 1
    return v


LISTS = [{'N': k, 'n': d} for k in (1, 2, 3) for d in (1, 'n')]


def bound(case):
    return 'sequences of length %d' % case['N']


def wanted(c, ms, xs, n):
    N = len(ms)
    se = sum((m - x) @ (m - x) for (m, P), x in zip(ms, xs)) / N
    return se, sum(nll_of(c, m, P, x, n) for (m, P), x in zip(ms, xs)) / N


@contract('C25', MET, cases=LISTS, thorough=[{'N': k, 'n': d} for k in (1, 2, 3, 5, 8) for d in (1, 'n')], trials=8, bounded=bound,
          extra=[{'N': k, 'n': d} for k in (5, 9, 14) for d in (1, 'n')])
def metrics(c):
    """RMSE and mean negative log-likelihood over a sequence, paired in order; node metrics score the marginals"""
    N, n = c.case['N'], c.dim('n')
    mod = c.mod('Utils.Metrics')
    qs = [c.gaussian('q%d' % i, n) for i in range(N)]
    ms = [moments(c, q) for q in qs]
    row = c.choice('rows', [False, True])
    xs = [c.vector('x%d' % i, n) for i in range(N)]
    args = [c.np.reshape(x, (1, c.size(n))) if row else x for x in xs]
    if c.choice('truth', ['list', 'tuple']) == 'tuple':
        args = tuple(args)
    mse, nll = wanted(c, ms, xs, n)
    fr = c.freeze(states=qs, truth=args)
    r = mod.rmse(qs, args)
    c.eq('mean squared error', r * r, mse)
    c.true('RMSE is not negative', r >= 0)
    c.eq('mean negative log-likelihood', mod.nll(qs, args), nll)
    nodes = [c.obj(marginal=q) for q in qs]
    both = mod.node_metrics(nodes, args)
    c.eq('two node metrics', len(both), 2)
    c.eq('first the RMSE of the marginals', both[0] * both[0], mse)
    c.eq('then their NLL', both[1], nll)
    both = mod.node_metrics(nodes=nodes, x_true=args)
    c.eq('the same again', both[1], nll)
    fr.unchanged()


@contract('C25', ['Experiments.EP_Sweep_BearingsOnly:node_metrics'], cases=[{'N': 1, 'n': 5}, {'N': 2, 'n': 5}], trials=6, bounded=bound,
          extra=[{'N': 5, 'n': 5}, {'N': 11, 'n': 5}])
def components(c):
    """the bearings-only sweep scores position (0, 2), velocity (1, 3) and turn rate (4) of the marginals separately"""
    N, n = c.case['N'], c.dim('n')
    mod = c.mod('Experiments.EP_Sweep_BearingsOnly')
    np = c.np
    qs = [c.gaussian('q%d' % i, n) for i in range(N)]
    xs = [c.vector('x%d' % i, n) for i in range(N)]
    args = [np.reshape(x, (1, 5)) for x in xs]
    fr = c.freeze(states=qs, truth=args)
    got = mod.node_metrics([c.obj(marginal=q) for q in qs], x_true=args)
    c.eq('six scores', len(got), 6)
    for j, ix in enumerate(([0, 2], [1, 3], [4])):
        ms = [(np.array([q.mean[i] for i in ix]), np.array([[q.cov[i, k] for k in ix] for i in ix])) for q in qs]
        ys = [np.array([x[i] for i in ix]) for x in xs]
        se = sum((m - x) @ (m - x) for (m, P), x in zip(ms, ys)) / N
        nl = sum((len(ix) * np.log(2 * np.pi) + np.linalg.slogdet(P)[1] + (x - m) @ c.inv(P) @ (x - m)) / 2
                 for (m, P), x in zip(ms, ys)) / N
        c.eq('squared RMSE', got[2 * j] * got[2 * j], se)
        c.eq('NLL', got[2 * j + 1], nl)
    fr.unchanged()


@contract('C25', MET, cases=NS, trials=6, soft=True, limit=40)
def metrics_of_any_number(c):
    """RMSE and mean negative log-likelihood over sequences of every length"""
    n = c.dim('n')
    N = c.length('N')
    mod = c.mod('Utils.Metrics')
    qs = c.states('q', N, n)
    xs = c.sequence('x', N, n)
    args = xs
    if c.choice('rows', [False, True]):
        args = c.seq(N, lambda i: c.np.reshape(c.at(xs, i), (1, c.size(n))))

    def square(i):
        d = c.at(xs, i) - c.at(qs, i).mean
        return d @ d

    def density(i):
        return nll_of(c, c.at(qs, i).mean, c.at(qs, i).cov, c.at(xs, i), n)
    mse, nll = c.total(N, square) / N, c.total(N, density) / N
    form = c.choice('form', ['lists', 'nodes'])
    if form == 'lists':
        a, b = c.run(mod.rmse, qs, args), c.run(mod.nll, qs, args)
        if not (c.returns('rmse returns', a) and c.returns('nll returns', b)):
            return
        r, l = a.value, b.value
    else:
        nodes = c.seq(N, lambda i: c.obj(marginal=c.at(qs, i)))
        out = c.run(mod.node_metrics, nodes, args)
        if not c.returns('node metrics return', out):
            return
        r, l = out.value
    c.eq('mean squared error', r * r, mse)
    c.true('RMSE is not negative', r >= 0)
    c.eq('mean negative log-likelihood', l, nll)


@contract('C25', ['Experiments.EP_Sweep_BearingsOnly:node_metrics'], cases=[{'n': 5}], trials=5, soft=True, limit=60)
def components_of_any_number(c):
    """the component scores over chains of every length"""
    n, N = c.dim('n'), c.length('N')
    mod = c.mod('Experiments.EP_Sweep_BearingsOnly')
    np = c.np
    qs, xs = c.states('q', N, n), c.sequence('x', N, n)
    args = c.seq(N, lambda i: np.reshape(c.at(xs, i), (1, 5)))
    nodes = c.seq(N, lambda i: c.obj(marginal=c.at(qs, i)))
    out = c.run(mod.node_metrics, nodes, x_true=args)
    if not c.returns('returned', out):
        return
    got = out.value
    c.eq('six scores', len(got), 6)
    for j, ix in enumerate(([0, 2], [1, 3], [4])):
        def part(i):
            q, x = c.at(qs, i), c.at(xs, i)
            return (np.array([q.mean[a] for a in ix]), np.array([[q.cov[a, b] for b in ix] for a in ix]), np.array([x[a] for a in ix]))

        def square(i):
            m, P, y = part(i)
            return (m - y) @ (m - y)

        def density(i):
            m, P, y = part(i)
            return (len(ix) * np.log(2 * np.pi) + np.linalg.slogdet(P)[1] + (y - m) @ c.inv(P) @ (y - m)) / 2
        c.eq('squared RMSE', got[2 * j] * got[2 * j], c.total(N, square) / N)
        c.eq('NLL', got[2 * j + 1], c.total(N, density) / N)
