"""C28  Estimators are reusable: results do not depend on earlier use.

Each contract runs a history of calls on one shared object and compares every answer with that of an object made for the
call alone; together with the frame (no call changes an attribute of the shared object or anything passed to it) this is
the induction step for histories of any length."""
from epv.registry import contract, NM
from contracts import kalman
from contracts.chain import Proj, any_state
from contracts.kalman import K, compare, system

M, E, N = 'MomentMatching.', 'MomentMatching.Estimator:Estimator.', 'ExpectationPropagation.Nodes:'
TFN = [M + 'TaylorLinearisation:TaylorTransform._transform', M + 'UnscentedTransform:UnscentedTransform._transform',
       M + 'UnscentedTransform:UnscentedTransform._sigma_points', M + 'UnscentedTransform:UnscentedTransform._weights',
       M + 'MomentMatch:MappingTransform.__call__', M + 'MomentMatch:MappingTransform.__init__']
EFN = [E + 'proj_trans', E + 'proj_meas', E + 'proj_back', E + '__init__']
KFN = [K + 'KalmanFilterSmoother.' + k for k in ('predict', 'correct', 'smooth', 'kalman_filter', 'kalman_smoother', '__init__')]
SAMPLING = ('draw', 'seed', 'other-generator')


def quiet(c, before):
    """No random draw, no seeding, no other generator since `before`."""
    c.eq('no use of randomness', len(c.events(*SAMPLING)), before)


def overwrite(c, values):
    """The caller reuses the arrays it was given."""
    for v in values:
        if hasattr(v, 'shape') and len(c.shape(v)):
            v[...] = 7.0


def agree(c, label, a, b, parts):
    """Both calls gave the same answer (or both refused)."""
    if not (a.ok and b.ok):
        c.true(label + ': same outcome', a.ok == b.ok and type(a.exc) is type(b.exc))
        return
    for k, x, y in zip(('mean', 'covariance', 'cross-covariance'), parts(a.value), parts(b.value)):
        c.eq('%s: %s' % (label, k), x, y)


def another(c, s, name, n):
    """A further state; when run, often one close to s in what a cache could compare."""
    r = c.gaussian(name, n)
    how = 'any' if c.symbolic else c.choice(name + ' relation', ['any', 'any', 'mean', 'covariance', 'variances', 'near', 'near mean', 'trace'])
    G = c.mod('StateModel').Gaussian
    m, P = s.mean + 0.0, s.cov + 0.0
    if how == 'mean':
        return G(m, r.cov)
    if how == 'covariance':
        return G(r.mean, P)
    if how == 'variances':                         # the same variances and other correlations
        D = c.np.diag(c.np.diag(P))
        return G(m, D + 0.5 * (P - D))
    if how == 'near':
        return G(m + 1e-4 * (1 + abs(m)), P + 1e-4 * c.np.eye(len(m)))
    if how == 'near mean':
        return G(m + 1e-4 * (1 + abs(m)), P)
    if how == 'trace':
        return G(m, c.np.eye(len(m)) * c.np.trace(P) / len(m))
    return r


def triple(v):
    return list(v)


def moments(v):
    return [v.mean, v.cov]


@contract('C28', TFN, cases=NM[:1] + NM[3:], trials=4)
def transforms(c):
    """a used Taylor or unscented transform answers as a new one, whatever it transformed before"""
    n, m = c.dim('n'), c.dim('m')
    kind = c.choice('transform', ['Taylor', 'unscented', 'unscented with parameters'])
    if kind == 'Taylor':
        make = lambda: c.mod('MomentMatching').TaylorTransform(dim=c.size(n))
    else:
        par = {}
        if kind != 'unscented':
            par = dict(alpha=c.scalar('alpha', pos=True), beta=c.scalar('beta'), kappa=c.scalar('n_plus_kappa', pos=True) - c.size(n))
        make = lambda: c.mod('MomentMatching').UnscentedTransform(dim=c.size(n), **par)
    t = make()
    f = [c.func('f', n, m), c.func('g', n, m)]
    s = [c.gaussian('s', n)]
    s.append(another(c, s[0], 'r', n))
    fr = c.freeze(transform=t, first=s[0], second=s[1])
    before = len(c.events(*SAMPLING))
    for i, j in ((0, 0), (0, 1), (1, 0), (1, 1), (0, 0), (1, 0)):
        got, want = c.run(t, f[i], s[j]), c.run(make(), f[i], s[j])
        agree(c, 'function %d, state %d' % (i, j), got, want, triple)
        if got.ok:
            overwrite(c, got.value)
        fr.unchanged()
    quiet(c, before)


@contract('C28', [M + 'MonteCarloTransform:MonteCarloTransform._transform', 'StateModel.Gaussian:Gaussian.sample'],
          cases=[dict(k, k='k') for k in (NM[0], NM[3])], trials=4)
def monte_carlo(c):
    """a used Monte Carlo transform answers as a new one with the same draws; one draw from the global generator per call"""
    n, m, k = c.dim('n'), c.dim('m'), c.dim('k')
    if not c.symbolic and c.choice('many samples', [False, True]):
        k = c.dim(2500)
    make = lambda: c.mod('MomentMatching').MonteCarloTransform(dim=c.size(n), number_of_samples=c.size(k))
    t = make()
    f, g = c.func('f', n, m), c.func('g', n, m)
    s = c.gaussian('s', n)
    r = another(c, s, 'r', n)
    fr = c.freeze(transform=t, first=s, second=r)
    seen = []

    def watch(func):
        def w(x):
            y = func(x)
            seen.append((c.np.array(x), c.np.array(y)))
            return y
        return w
    for func, q in ((f, s), (g, s), (g, r), (f, s)):
        before = len(c.events(*SAMPLING))
        out = c.run(t, watch(func), q)
        c.eq('one draw', len(c.events('draw')), len([e for e in c.events(*SAMPLING)[:before] if e[0] == 'draw']) + 1)
        c.eq('no other generator or seeding', len(c.events(*SAMPLING)), before + 1)
        if not c.returns('returned', out):
            return
        x, y = seen[-1]
        mu, mx = c.np.mean(y, axis=0), c.np.mean(x, axis=0)
        c.eq('mean of these draws', out.value[0], mu)
        c.eq('covariance of these draws', out.value[1], (y - mu).T @ (y - mu) / (c.size(k) - 1))
        c.eq('cross-covariance of these draws', out.value[2], (x - mx).T @ (y - mu) / (c.size(k) - 1))
        overwrite(c, out.value)
        fr.unchanged()
    if not c.symbolic:
        a = []
        for _ in range(2):
            c.np.random.seed(5)
            a.append(c.run(t, f, s))
        agree(c, 'same seed', a[0], a[1], triple)


@contract('C28', EFN, cases=NM[:1] + NM[3:], trials=4)
def estimators(c):
    """a used estimator projects as a new one and changes neither noises nor states nor measurement"""
    n, m = c.dim('n'), c.dim('m')
    T, Z = c.transform('T', n, n), c.transform('M', n, m)
    Q, R = c.pd('Q', n), c.pd('R', m)
    p, d = c.unit('power'), c.unit('damping')
    make = lambda: c.get(M + 'Estimator:Estimator')(T, Z, Q, R, p, d)
    est = make()
    f, h = c.func('f', n, n), c.func('h', n, m, uses=())
    s, nx = c.gaussian('s', n), c.gaussian('next', n)
    r = another(c, s, 'r', n)
    y = c.vector('y', m)
    g, h2, y2 = c.func('g', n, n), c.func('h2', n, m, uses=()), c.vector('y2', m)
    other = {f: g, h: h2}
    which = c.choice('projection', ['trans', 'meas', 'back'])
    F = h if which == 'meas' else f
    if which == 'trans':
        call = lambda e, q, F=F, z=y: c.run(e.proj_trans, F, q)
    elif which == 'meas':
        call = lambda e, q, F=F, z=y: c.run(e.proj_meas, F, q, z)
    else:
        call = lambda e, q, F=F, z=y: c.run(e.proj_back, F, q, nx)
    fr = c.freeze(estimator=est, Q=Q, R=R, first=s, second=r, next=nx, measurement=y)
    before = len(c.events(*SAMPLING))
    wants = [call(make(), s), call(make(), r)]
    for i, q in ((0, s), (1, r), (0, s)):
        agree(c, 'state %d' % i, call(est, q), wants[i], moments)
    agree(c, 'another function', call(est, s, other[F]), call(make(), s, other[F]), moments)
    agree(c, 'other data', call(est, s, F, y2), call(make(), s, F, y2), moments)
    fr.unchanged()
    quiet(c, before)


@contract('C28', EFN, cases=NM[:1] + NM[3:], trials=4)
def projections_do_not_interact(c):
    """a projection answers the same after the other two were used"""
    n, m = c.dim('n'), c.dim('m')
    T, Z = c.transform('T', n, n), c.transform('M', n, m)
    Q, R = c.pd('Q', n), c.pd('R', m)
    p, d = c.unit('power'), c.unit('damping')
    make = lambda: c.get(M + 'Estimator:Estimator')(T, Z, Q, R, p, d)
    est = make()
    f, h = c.func('f', n, n), c.func('h', n, m, uses=())
    s, nx = c.gaussian('s', n), c.gaussian('next', n)
    y = c.vector('y', m)
    calls = [lambda e: c.run(e.proj_trans, f, s), lambda e: c.run(e.proj_meas, h, s, y), lambda e: c.run(e.proj_back, f, s, nx)]
    first = c.choice('first', [0, 1, 2])
    for k in range(3):
        o = calls[(first + k) % 3](est)
        agree(c, 'projection %d' % ((first + k) % 3), o, calls[(first + k) % 3](make()), moments)


@contract('C28', KFN[:3], cases=NM[:1] + NM[3:], trials=4, tol=1e-5)
def filter_steps(c):
    """a used filter takes each step as a new one and changes nothing it is given or holds"""
    n, m = c.dim('n'), c.dim('m')
    f, h = c.func('f', n, n), c.func('h', n, m, uses=())
    T, Z = c.transform('T', n, n), c.transform('M', n, m)
    s, Q, R, prior, dt = system(c, n, m, f, h)
    make = lambda: c.get(K + 'KalmanFilterSmoother')(T, s, Z)
    kf = make()
    a = c.gaussian('a', n)
    b = another(c, a, 'b', n)
    y, t, u = c.vector('y', m), c.scalar('t'), c.scalar('u')
    steps = {'predict': lambda k, q: c.run(k.predict, q, t=t, u=u), 'correct': lambda k, q: c.run(k.correct, q, y, t=t, u=u),
             'smooth': lambda k, q: c.run(k.smooth, q, prior, t=t, u=u)}
    call = steps[c.choice('step', ['predict', 'correct', 'smooth'])]
    fr = c.freeze(filter=kf, system=s, Q=Q, R=R, prior=prior, measurement=y, first=a, second=b)
    before = len(c.events(*SAMPLING))
    wants = [call(make(), a), call(make(), b)]
    for i, q in ((0, a), (1, b), (0, a)):
        agree(c, 'state %d' % i, call(kf, q), wants[i], moments)
    fr.unchanged()
    quiet(c, before)


def runs(c, got, want):
    if c.returns('used one returned', got) and c.returns('new one returned', want):
        compare(c, got.value, want.value)


@contract('C28', KFN, cases=[{'n': 1, 'm': 1, 'N': k} for k in (1, 2)] + [{'n': 'n', 'm': 'm', 'N': k} for k in (1, 2)],
          extra=[{'n': n, 'm': m, 'N': 4} for n, m in ((1, 1), ('n', 'm'))], bounded=kalman.bound, trials=3, tol=1e-5)
def filters(c):
    """a used filter and smoother answers as a new one"""
    n, m = c.dim('n'), c.dim('m')
    f, h = c.func('f', n, n), c.func('h', n, m, uses=())
    T, Z = c.transform('T', n, n), c.transform('M', n, m)
    s, Q, R, prior, dt = system(c, n, m, f, h)
    make = lambda: c.get(K + 'KalmanFilterSmoother')(T, s, Z)
    kf = make()
    data = [[c.vector('%s%d' % (w, i), m) for i in range(c.case['N'])] for w in 'yz']
    fr = c.freeze(filter=kf, system=s, Q=Q, R=R, prior=prior, data=data)
    before = len(c.events(*SAMPLING))
    for j, i in enumerate((0, 1, 0)):
        got, want = c.run(kf.kalman_filter, data[i]), c.run(make().kalman_filter, data[i])
        runs(c, got, want)
        if got.ok and want.ok:
            runs(c, c.run(kf.kalman_smoother, got.value), c.run(make().kalman_smoother, want.value))
    fr.unchanged()
    quiet(c, before)


@contract('C28', KFN, cases=[{'n': 1, 'm': 1}, {'n': 'n', 'm': 'm'}], trials=3, tol=1e-5, soft=True, concrete=False, limit=60)
def filters_of_any_length(c):
    """a filter and smoother used before on sequences of any length follows the recursion of a new one"""
    n, m = c.dim('n'), c.dim('m')
    f, h = c.func('f', n, n), c.func('h', n, m, uses=())
    T, Z = c.transform('T', n, n), c.transform('M', n, m)
    s, Q, R, prior, dt = system(c, n, m, f, h)
    kf = c.get(K + 'KalmanFilterSmoother')(T, s, Z)
    smoother = c.choice('run', ['filter', 'smoother']) == 'smoother'
    calls = []
    for w in 'yz':
        N = c.length('N' + w)
        if smoother:
            data = c.states(w, N, n)
            last = c.at(data, N - 1)

            def step(k, q, data=data, N=N):
                i = N - 2 - k
                return kalman.smooth(c, T, f, c.at(data, i), kalman.state(c, *q), Q, 0.0 + (i + 1) * dt, None)
            W = c.recursion('smoothed ' + w, (last.mean, last.cov), step, (n, (n, 'sym')))
            calls.append((kf.kalman_smoother, data, N, W))
        else:
            data = c.sequence(w, N, m)

            def step(k, q, data=data):
                mu, S, _ = kalman.predict(c, T, f, kalman.state(c, *q), Q, k * dt, None)
                return kalman.correct(c, Z, h, kalman.state(c, mu, S), R, c.at(data, k), k * dt, None)
            W = c.recursion('filtered ' + w, (prior.mean, prior.cov), step, (n, (n, 'sym')))
            calls.append((kf.kalman_filter, data, N, W))
    fr = c.freeze(filter=kf, system=s, Q=Q, R=R, prior=prior)
    before = len(c.events(*SAMPLING))
    for j, i in enumerate((0, 1, 0)):
        run, data, N, W = calls[i]
        out = c.run(run, data)
        if not c.returns('returned', out):
            return
        c.eq('number of states', c.len(out.value), N)
        for k in c.each('k%d' % j, N):
            got = c.at(out.value, k)
            c.follows('state', (got.mean, got.cov), W, N - 1 - k if smoother else k + 1, part=('mean', 'covariance'))
    fr.unchanged()
    quiet(c, before)


@contract('C28', [K + 'IEKF.__call__', K + 'IEKF._iterated_update', K + 'IEKF.__init__', K + 'IEKS.__call__', K + 'IEKS.__init__'],
          cases=[{'n': 1, 'm': 1, 'N': 1, 'it': k} for k in (1, 2)], extra=[{'n': n, 'm': m, 'N': k, 'it': 2} for k in (1, 3) for n, m in ((1, 1), ('n', 'm'))],
          bounded=kalman.bound, trials=3, tol=1e-5)
def iterated(c):
    """a used iterated filter or smoother answers as a new one"""
    n, m = c.dim('n'), c.dim('m')
    f, h = c.func('f', n, n, style='row1'), c.func('h', n, m, style='row1')
    s, Q, R, prior, dt = system(c, n, m, f, h)
    cls = c.get(K + c.choice('class', ['IEKF', 'IEKS']))
    make = lambda: cls(s, c.size(n))
    kf = make()
    data = [[c.vector('%s%d' % (w, i), m) for i in range(c.case['N'])] for w in 'yz']
    fr = c.freeze(system=s, Q=Q, R=R, prior=prior, data=data)
    before = len(c.events(*SAMPLING))
    for j, i in enumerate((0, 1, 0)):
        runs(c, c.run(kf, data[i], num_iter=c.case['it']), c.run(make(), data[i], num_iter=c.case['it']))
    fr.unchanged()
    quiet(c, before)


class Pair(object):
    pass


def two_chains(c, length, n, m, arbitrary, modular=False):
    """Two chains over one system, one estimator and the same measurements; nodes equal, in arbitrary states."""
    w = Pair()
    f, h = c.func('f', n, n), c.func('h', n, m, uses=())
    w.s, w.Q, w.R, w.prior, w.dt = system(c, n, m, f, h)
    T, Z = c.transform('T', n, n), c.transform('M', n, m)
    w.est = c.get(M + 'Estimator:Estimator')(T, Z, w.Q, w.R, c.unit('power'), c.unit('damping'))
    w.proj = None
    if modular:
        # by the contracts above the projections are functions of their arguments: any state, or a refusal
        exc = c.LinAlgError('refused') if c.choice('refused', [False, True]) else None
        w.proj = Proj(None if exc else any_state(c, 'projected', n), exc)
        w.est = c.obj(proj_trans=w.proj, proj_meas=w.proj, proj_back=w.proj, power=c.unit('power'), damping=c.unit('damping'))
    nd = c.mod('ExpectationPropagation.Nodes')
    G = c.mod('StateModel').Gaussian
    w.ys = [c.vector('y%d' % i, m) for i in range(length)]
    w.chains = [nd.node_estimator(nd.node_system(nd.build_nodes(length, c.size(n)), w.s, list(w.ys)), w.est) for _ in range(2)]
    if arbitrary:
        vals = [[(c.symm('L%d%s' % (i, k[0]), n), c.vector('h%d%s' % (i, k[0]), n)) for k in ('forward', 'measurement', 'back')] +
                [(c.vector('m%d' % i, n), c.pd('P%d' % i, n))] for i in range(length)]
        for ch in w.chains:
            for x, ((a, b), (d, e), (g, k), (mq, Pq)) in zip(ch, vals):
                x.forward_factor, x.measurement_factor = G(precision_mat=c.np.array(a), shift_vec=c.np.array(b)), G(precision_mat=c.np.array(d), shift_vec=c.np.array(e))
                x.back_factor = G(precision_mat=c.np.array(g), shift_vec=c.np.array(k))
                x.marginal = G(c.np.array(mq), c.np.array(Pq))
    held = w.est if w.proj is None else [w.est.power, w.est.damping, w.proj.result]
    w.frame = c.freeze(estimator=held, Q=w.Q, R=w.R, prior=w.prior, measurements=w.ys)
    return w


def argument(c, v, z):
    if hasattr(v, 'precision'):
        c.eq('projected state: precision', v.precision, z.precision)
        c.eq('projected state: shift', v.shift, z.shift)
    elif callable(v):
        x = c.vector('point', c.dim('n'))
        c.eq('projected function', v(x), z(x))
    else:
        c.eq('projected measurement', v, z)


STATE = ('marginal', 'forward_factor', 'measurement_factor', 'back_factor')


def equal_chains(c, w):
    for x, y in zip(*w.chains):
        for k in STATE:
            a, b = getattr(x, k), getattr(y, k)
            c.eq('%s precision' % k, a.precision, b.precision)
            c.eq('%s shift' % k, a.shift, b.shift)


@contract('C28', [N + 'Node.fwd_update', N + 'Node.meas_update', N + 'Node.back_update', N + 'Node.power_update', N + 'node_estimator', N + 'node_system',
                  N + 'build_nodes'] + EFN[:3], cases=[dict(n=n, m=m, kind=k, pos=p) for n, m in ((1, 1), ('n', 'm')) for k in ('fwd', 'meas', 'back') for p in (0, 1, 2)],
          trials=2, tol=1e-5)
def chains(c):
    """any update on two chains in the same state leaves them in the same state, and touches neither the other chain nor
    estimator, noises, prior or measurements"""
    n, m = c.dim('n'), c.dim('m')
    w = two_chains(c, 3, n, m, True, c.symbolic)
    kind, pos = c.case['kind'], c.case['pos']
    before = len(c.events(*SAMPLING))
    other = c.freeze(**{'node%d' % i: [getattr(x, k) for k in STATE] for i, x in enumerate(w.chains[1])})
    touched = [getattr(x, k) for x in w.chains[1] for k in STATE]
    a = c.run(getattr(w.chains[0][pos], kind + '_update'))
    other.unchanged('other chain')
    c.true('other chain keeps its states', all(p is q for p, q in zip(touched, [getattr(x, k) for x in w.chains[1] for k in STATE])))
    b = c.run(getattr(w.chains[1][pos], kind + '_update'))
    c.true('same outcome', a.ok == b.ok)
    if w.proj is not None:
        k = len(w.proj.calls) // 2
        c.eq('projections of both chains', len(w.proj.calls), 2 * k)
        for (p, pk), (q, qk) in zip(w.proj.calls[:k], w.proj.calls[k:]):
            c.true('projection called alike', len(p) == len(q) and sorted(pk) == sorted(qk))
            for v, z in list(zip(p, q)) + [(pk[i], qk.get(i)) for i in pk]:
                argument(c, v, z)
    equal_chains(c, w)
    w.frame.unchanged()
    quiet(c, before)


@contract('C28', ['ExpectationPropagation.Iterations:ep_fwd_back_updates', 'ExpectationPropagation.Iterations:kalman_filter',
                  'ExpectationPropagation.Iterations:kalman_smoother'], cases=[{'n': 1, 'm': 1, 'N': 1}, {'n': 'n', 'm': 'm', 'N': 1}],
          extra=[{'n': n, 'm': m, 'N': 4} for n, m in ((1, 1), ('n', 'm'))], bounded=kalman.bound, trials=4, tol=1e-5)
def sweeps(c):
    """two new chains from the same system, estimator and measurements agree sweep by sweep, run one after the other or in turns"""
    n, m = c.dim('n'), c.dim('m')
    w = two_chains(c, c.case['N'], n, m, False)
    it = c.mod('ExpectationPropagation.Iterations')
    turns = 1 if c.symbolic else 3
    if c.choice('order', ['in turns', 'one after the other']) == 'in turns':
        for _ in range(turns):
            for ch in w.chains:
                c.run(it.ep_fwd_back_updates, ch)
            equal_chains(c, w)
    else:
        hist = []
        for ch in w.chains:
            h = []
            for _ in range(turns):
                c.run(it.ep_fwd_back_updates, ch)
                h.append([(x.marginal.precision, x.marginal.shift) for x in ch])
            hist.append(h)
        for p, q in zip(*hist):
            for (a, b), (d, e) in zip(p, q):
                c.eq('marginal precision', a, d)
                c.eq('marginal shift', b, e)
    w.frame.unchanged()


BENCH = (('UniformNonlinearGrowthModel', 1), ('BearingsOnlyTracking', 4), ('BearingsOnlyTrackingTurn', 5), ('L96', 'n'))


@contract('C28', ['Systems.UniformNonlinearGrowthModel:f', 'Systems.BearingsOnlyTracking:f', 'Systems.BearingOnlyTrackingTurn:f', 'Systems.L96:f',
                  'Systems.UniformNonlinearGrowthModel:h', 'Systems.BearingsOnlyTracking:h', 'Systems.BearingOnlyTrackingTurn:h', 'Systems.L96:h',
                  'Systems.DynamicSystem:DynamicSystemModel.measure'],
          cases=[{'sys': s, 'n': n} for s, n in BENCH], trials=6)
def benchmarks(c):
    """the functions of a benchmark system give the same answer for the same input, before and after other inputs"""
    n = c.dim('n')
    mod = c.mod('Systems')
    name = c.case['sys']
    if name == 'L96':
        c.np.save('start.npy', c.vector('x0', n))
        s = c.mod('Systems.L96').L96(dim=c.size(n), init_cond_path='start.npy')
    else:
        s = getattr(c.mod('Systems.BearingOnlyTrackingTurn') if name.endswith('Turn') else mod, name)()
    x, z = c.vector('x', n), c.vector('z', n)
    t, v = c.scalar('t'), c.scalar('v')
    fr = c.freeze(x=x, z=z, prior=s.init_state, Q=s.system_noise.cov, R=s.measurement_noise.cov)
    before = len(c.events(*SAMPLING))
    for label, func in (('transition', lambda y, t: s.transition(y, t=t)), ('measurement', lambda y, t: s.measurement(y)), ('measure', lambda y, t: s.measure(y))):
        one = c.run(func, x, t)
        if not c.returns(label, one):
            return
        want = c.np.array(one.value)
        overwrite(c, [one.value]) if one.value is not x else None
        for y, k in ((z, t), (x, v), (z, v)):
            c.run(func, y, k)
        two = c.run(func, x, t)
        if c.returns(label, two):
            c.eq(label, two.value, want)
        fr.unchanged()
    quiet(c, before)


@contract('C28', ['StateModel.Gaussian:Gaussian.sample', 'Systems.DynamicSystem:GaussianNoise.sample', 'Systems.DynamicSystem:DynamicSystem.simulate'],
          cases=[{'n': 1, 'm': 1}, {'n': 'n', 'm': 'm'}], trials=8, tol=1e-12)
def sampling(c):
    """states, noises and simulations draw from the global generator only, never seed it, and change nothing"""
    n, m = c.dim('n'), c.dim('m')
    f, h = c.func('f', n, n, uses=('t',)), c.func('h', n, m, uses=())
    s, Q, R, prior, dt = system(c, n, m, f, h)
    q = c.gaussian('q', n)
    fr = c.freeze(Q=Q, R=R, prior=prior, state=q)
    what = c.choice('sampler', ['state', 'noise', 'simulation'])
    fn = {'state': lambda: q.sample(3), 'noise': lambda: s.system_noise.sample(), 'simulation': lambda: [list(p) for p in s.simulate(2)]}[what]
    out = c.run(fn)
    c.returns('returned', out)
    c.true('drawn from the global generator', len(c.events('draw')) > 0)
    c.eq('no other generator', len(c.events('other-generator', 'seed')), 0)
    fr.unchanged()
    if not c.symbolic:
        def flat(v):
            return c.np.concatenate([c.np.ravel(x) for p in v for x in p]) if what == 'simulation' else c.np.array(v)
        a = []
        for _ in range(2):
            c.np.random.seed(11)
            fn2 = c.run(fn)
            if not c.returns('returned', fn2):
                return
            a.append(flat(fn2.value))
        c.eq('reproducible from the global seed', a[0], a[1])
