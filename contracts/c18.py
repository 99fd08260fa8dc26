"""C18  Standard EP contains the Gaussian filter and smoother as special case.

The limit of a flat initial marginal (zero precision) is taken in the symbolic contracts: nodes start with
Gaussian.as_factor.  The steps are inductive: the neighbour carries an arbitrary filtered (smoothed) state, so the
contracts hold for every chain length; C14 gives the order of the steps.  The last contract runs whole chains."""
from epv.registry import contract, NM
from contracts import kalman
from contracts.kalman import K, at, correct, predict, smooth, state, system

N, E, G_ = 'ExpectationPropagation.Nodes:', 'MomentMatching.Estimator:Estimator.', 'StateModel.Gaussian:Gaussian.'
FN = [N + 'Node.fwd_update', N + 'Node.meas_update', N + 'Node.back_update', N + 'Node.power_update', N + 'node_estimator', N + 'node_system',
      N + 'build_nodes', E + 'proj_trans', E + 'proj_meas', E + 'proj_back', G_ + '__mul__', G_ + '__truediv__', G_ + '__pow__']


def affine(c, A, b):
    """The exact transform of an affine map (C04)."""
    return lambda func, s: (A @ s.mean + b, A @ s.cov @ A.T, s.cov @ A.T)


class World(object):
    pass


def world(c, length, linear=False, part=False):
    w = World()
    n, m = w.n, w.m = c.dim('n'), c.dim('m')
    w.f, w.h = c.func('f', n, n), c.func('h', n, m, uses=())
    w.s, w.Q, w.R, w.prior, w.dt = system(c, n, m, w.f, w.h)
    if linear:
        w.A, w.b = c.matrix('A', n, n), c.vector('b', n)
        w.H, w.d = c.matrix('H', m, n), c.vector('d', m)
        w.T, w.M = affine(c, w.A, w.b), affine(c, w.H, w.d)
    else:
        w.T, w.M = c.transform('T', n, n), c.transform('M', n, m)
    est = c.get('MomentMatching.Estimator:Estimator')(w.T, w.M, w.Q, w.R, 1, 1)
    nd = c.mod('ExpectationPropagation.Nodes')
    G = w.G = c.mod('StateModel').Gaussian
    w.ys = [c.vector('y%d' % i, m) for i in range(length)]
    w.nodes = nd.node_estimator(nd.node_system(nd.build_nodes(length, c.size(n)), w.s, list(w.ys)), est)
    if part:                            # of a longer chain: the positions are those in the whole
        first = c.scalar('first', lo=0, isint=True)
        for i, x in enumerate(w.nodes):
            x.index = first + i
    w.flat = c.symbolic
    if w.flat:
        for x in w.nodes:
            x.marginal = G.as_factor(c.size(n))
    return w


def proper(c, P):
    """The covariance is one, and not so large that its precision stands for the flat state."""
    c.assume(c.is_pd(P))
    c.regular(c.inv(P))


def given(c, name, n):
    """An arbitrary state that is not the (almost) flat one."""
    q = c.gaussian(name, n)
    c.regular(q.precision if not c.symbolic else c.inv(q.cov))
    return q


def same(c, label, got, mean, cov):
    c.eq(label + ' mean', got.mean, mean)
    c.eq(label + ' covariance', got.cov, cov)


@contract('C18', FN + [K + 'KalmanFilterSmoother.predict', K + 'KalmanFilterSmoother.correct'],
          cases=[dict(k, pos=p) for k in NM[:4] for p in (0, 1)], trials=6, tol=1e-4)
def filter_step(c):
    """after the forward and the measurement update a node holds the next state of the Gaussian filter"""
    pos = c.case['pos']
    w = world(c, pos + 2, part=pos > 0)
    x = w.nodes[pos]
    q = w.prior
    if pos:
        q = given(c, 'q', w.n)
        w.nodes[pos - 1].marginal = q
    kf = c.get(K + 'KalmanFilterSmoother')(w.T, w.s, w.M)
    t = pos * w.dt
    mu, S, _ = predict(c, w.T, w.f, q, w.Q, t, 0.0)
    proper(c, S)
    before = x.marginal
    out = c.run(x.fwd_update)
    if not c.returns('forward update returns', out) or x.marginal is before:
        return
    same(c, 'predicted', x.marginal, mu, S)
    p = state(c, mu, S)
    m1, P1 = correct(c, w.M, w.h, p, w.R, w.ys[pos], t, 0.0)
    proper(c, P1)
    mid = x.marginal
    out = c.run(x.meas_update)
    if not c.returns('measurement update returns', out) or x.marginal is mid:
        return
    same(c, 'filtered', x.marginal, m1, P1)
    out = c.run(lambda: kf.correct(kf.predict(q, t=t, u=0.0), w.ys[pos], t=t, u=0.0))
    if c.returns('filter runs', out):
        same(c, 'state of the filter:', x.marginal, out.value.mean, out.value.cov)
    c.eq('no backward message', x.back_factor.precision, c.np.zeros((c.size(w.n), c.size(w.n))))
    c.eq('no backward shift', x.back_factor.shift, c.np.zeros(c.size(w.n)))


@contract('C18', FN + [K + 'KalmanFilterSmoother.smooth', K + 'KalmanFilterSmoother.kalman_smoother'], cases=[{'n': 1, 'm': 1}, {'n': 'n', 'm': 'm'}],
          trials=12, tol=1e-4)
def smoother_step(c):
    """the backward update turns a filtered marginal into the smoothed state against the smoothed next node"""
    w = world(c, 3, part=True)
    x, nx = w.nodes[1], w.nodes[2]
    qf, qs = given(c, 'filtered', w.n), given(c, 'smoothed', w.n)
    x.marginal, nx.marginal = qf, qs
    nx.forward_factor = given(c, 'message', w.n)
    _, S, _ = predict(c, w.T, w.f, qf, w.Q, 2 * w.dt, 0.0)
    proper(c, S)
    m1, P1 = smooth(c, w.T, w.f, qf, qs, w.Q, 2 * w.dt, 0.0)
    proper(c, P1)
    out = c.run(x.back_update)
    if not c.returns('backward update returns', out) or x.marginal is qf:
        return
    same(c, 'smoothed', x.marginal, m1, P1)
    kf = c.get(K + 'KalmanFilterSmoother')(w.T, w.s, w.M)
    out = c.run(kf.kalman_smoother, [qf, qs], u=0.0, t_zero=w.dt)
    if c.returns('smoother runs', out):
        same(c, 'state of the smoother:', x.marginal, out.value[0].mean, out.value[0].cov)


@contract('C18', FN, cases=[{'n': 1, 'm': 1}, {'n': 'n', 'm': 'm'}], trials=12, tol=1e-4)
def last_node(c):
    """the backward update of the last node leaves the filtered marginal: the start of the smoother"""
    w = world(c, 2, part=True)
    x = w.nodes[1]
    x.marginal = qf = given(c, 'filtered', w.n)
    out = c.run(x.back_update)
    c.returns('backward update returns', out)
    same(c, 'kept', x.marginal, qf.mean, qf.cov)


LINEAR = NM[:4]


@contract('C18', FN, cases=LINEAR, trials=6, tol=1e-4)
def linear_messages(c):
    """linear system: after the first visit the measurement factor is exactly the likelihood of the observation"""
    w = world(c, 2, linear=True, part=True)
    x = w.nodes[0]
    q = given(c, 'predicted', w.n)
    x.marginal = q
    Ri = c.inv(w.R)
    z = correct(c, w.M, w.h, q, w.R, w.ys[0], 0.0, 0.0)
    c.lemma_inverse('the posterior covariance inverts prior precision plus likelihood', z[1], c.inv(q.cov) + w.H.T @ Ri @ w.H)
    proper(c, z[1])
    out = c.run(x.meas_update)
    if not c.returns('measurement update returns', out) or x.marginal is q:
        return
    c.eq('precision', x.measurement_factor.precision, w.H.T @ Ri @ w.H)
    c.eq('shift', x.measurement_factor.shift, w.H.T @ Ri @ (w.ys[0] - w.d))


@contract('C18', FN, cases=LINEAR[:1] + LINEAR[3:], trials=6, tol=1e-4)
def linear_forward(c):
    """linear system: repeating the forward update leaves marginal and message unchanged"""
    w = world(c, 3, linear=True, part=True)
    pv, x = w.nodes[0], w.nodes[1]
    G = w.G
    qf, other = given(c, 'filtered', w.n), given(c, 'rest', w.n)
    back = G(precision_mat=c.psd('B', w.n), shift_vec=c.vector('b1', w.n))
    pv.marginal, pv.back_factor = qf * back, back
    x.forward_factor = G(*predict(c, w.T, w.f, qf, w.Q, w.dt, 0.0)[:2])
    x.marginal = x.forward_factor * other
    c.regular(x.marginal.precision)
    c.regular(x.forward_factor.precision)
    unchanged(c, x, 'forward_factor', x.fwd_update)


@contract('C18', FN, cases=LINEAR, trials=6, tol=1e-4)
def linear_measurement(c):
    """linear system: repeating the measurement update leaves marginal and factor unchanged"""
    w = world(c, 2, linear=True, part=True)
    x = w.nodes[0]
    cav = given(c, 'cavity', w.n)
    Ri = c.inv(w.R)
    x.measurement_factor = w.G(precision_mat=w.H.T @ Ri @ w.H, shift_vec=w.H.T @ Ri @ (w.ys[0] - w.d))
    z = correct(c, w.M, w.h, cav, w.R, w.ys[0], 0.0, 0.0)
    c.lemma_inverse('the posterior covariance inverts prior precision plus likelihood', z[1], c.inv(cav.cov) + w.H.T @ Ri @ w.H)
    x.marginal = cav * x.measurement_factor
    c.regular(x.marginal.precision)
    unchanged(c, x, 'measurement_factor', x.meas_update)


@contract('C18', FN, cases=LINEAR[:1] + LINEAR[3:], trials=6, tol=1e-4)
def linear_backward(c):
    """linear system: repeating the backward update leaves marginal and message unchanged"""
    w = world(c, 3, linear=True, part=True)
    x, nx = w.nodes[1], w.nodes[2]
    qf, qs = given(c, 'filtered', w.n), given(c, 'smoothed', w.n)
    nx.marginal = qs
    nx.forward_factor = w.G(*predict(c, w.T, w.f, qf, w.Q, 2 * w.dt, 0.0)[:2])
    sm = w.G(*smooth(c, w.T, w.f, qf, qs, w.Q, 2 * w.dt, 0.0))
    proper(c, sm.cov)
    x.back_factor = sm / qf
    x.marginal = sm
    unchanged(c, x, 'back_factor', x.back_update)


def unchanged(c, x, factor, update):
    f, q = getattr(x, factor), x.marginal
    want = [c.np.array(v) for v in (q.precision, q.shift, f.precision, f.shift)]
    out = c.run(update)
    if c.returns('update returns', out):
        f, q = getattr(x, factor), x.marginal
        for label, got, v in zip(('marginal precision', 'marginal shift', 'factor precision', 'factor shift'),
                                 (q.precision, q.shift, f.precision, f.shift), want):
            c.eq(label, got, v)


@contract('C18', FN + ['ExpectationPropagation.Iterations:kalman_filter', 'ExpectationPropagation.Iterations:kalman_smoother',
                       'ExpectationPropagation.Iterations:ep_fwd_back_updates', K + 'KalmanFilterSmoother.kalman_filter',
                       K + 'KalmanFilterSmoother.kalman_smoother'],
          cases=[{'n': 1, 'm': 1, 'N': k} for k in (1, 2)] + [{'n': 'n', 'm': 'm', 'N': k} for k in (1, 2)],
          extra=[{'n': n, 'm': m, 'N': k} for k in (3, 6) for n, m in ((1, 1), ('n', 'm'), ('n', 1))], bounded=kalman.bound, trials=6, tol=1e-4)
def passes(c):
    """a fresh chain: forward pass = filter, then backward pass = smoother"""
    w = world(c, c.case['N'])
    it = c.mod('ExpectationPropagation.Iterations')
    kf = c.get(K + 'KalmanFilterSmoother')(w.T, w.s, w.M)
    sp = kalman.filtered(c, w.T, w.M, w.f, w.h, w.Q, w.R, w.prior, w.ys, 0.0, w.dt, 0.0)
    for k, s in enumerate([w.prior] + sp):
        if k < len(sp):
            proper(c, predict(c, w.T, w.f, s, w.Q, k * w.dt, 0.0)[1])
        proper(c, s.cov)
    for s in kalman.smoothed(c, w.T, w.f, w.Q, sp, 0.0, w.dt, 0.0):
        proper(c, s.cov)
    fresh = [(x.marginal, x.forward_factor, x.measurement_factor, x.back_factor) for x in w.nodes]
    out = c.run(it.kalman_filter, w.nodes)
    if not c.returns('forward pass returns', out):
        return
    if any(x.marginal is a or x.forward_factor is b or x.measurement_factor is d for x, (a, b, d, _) in zip(w.nodes, fresh)):
        return
    fs = c.run(kf.kalman_filter, list(w.ys), u=0.0)
    if not c.returns('filter returns', fs):
        return
    for x, s in zip(w.nodes, fs.value):
        same(c, 'filter', x.marginal, s.mean, s.cov)
    out = c.run(it.kalman_smoother, w.nodes)
    if not c.returns('backward pass returns', out):
        return
    if any(x.back_factor is b for x, (_, _, _, b) in zip(w.nodes[:-1], fresh)):
        return
    ss = c.run(kf.kalman_smoother, fs.value, u=0.0)
    if c.returns('smoother returns', ss):
        for x, s in zip(w.nodes, ss.value):
            same(c, 'smoother', x.marginal, s.mean, s.cov)


@contract('C18', FN + ['ExpectationPropagation.Iterations:ep_fwd_back_updates'], cases=[{'n': 1, 'm': 1, 'N': 1}], symbolic=False,
          extra=[{'n': n, 'm': m, 'N': k} for k in (2, 3, 5) for n, m in ((1, 1), ('n', 'm'))], trials=6, tol=1e-4,
          bounded='random linear systems of up to 5 time steps, only run')
def further_sweeps(c):
    """linear system: after the first sweep the marginals stay"""
    w = world(c, c.case['N'], linear=True)
    it = c.mod('ExpectationPropagation.Iterations')
    out = c.run(it.ep_fwd_back_updates, w.nodes)
    if not c.returns('first sweep returns', out):
        return
    want = [(c.np.array(x.marginal.mean), c.np.array(x.marginal.cov)) for x in w.nodes]
    for k in range(2):
        out = c.run(it.ep_fwd_back_updates, w.nodes)
        if c.returns('further sweep returns', out):
            for x, (m, P) in zip(w.nodes, want):
                same(c, 'stays', x.marginal, m, P)
