"""C16  Gaussian filter: predict and condition each measurement in turn."""
from epv.registry import contract, NM
from contracts.kalman import K, at, bound, compare, correct, filtered, measurements, predict, state, steps, system

FN = [K + 'KalmanFilterSmoother.__init__', K + 'KalmanFilterSmoother.predict', K + 'KalmanFilterSmoother.correct',
      K + 'KalmanFilterSmoother.kalman_filter']


def build(c, n, m):
    f, h = c.func('f', n, n), c.func('h', n, m)
    s, Q, R, prior, dt = system(c, n, m, f, h)
    T = c.transform('T', n, n)
    KF = c.get(K + 'KalmanFilterSmoother')
    if c.choice('measurement transform', [True, False]) or c.size(n) is not c.size(m):
        M = c.transform('M', n, m)
        return KF(T, s, M), s, f, h, T, M, Q, R, prior, dt
    return KF(T, s), s, f, h, T, T, Q, R, prior, dt


@contract('C16', FN, cases=NM)
def prediction(c):
    """predict: mean of the transform, covariance of the transform plus process noise, at the given time and input"""
    n, m = c.dim('n'), c.dim('m')
    kf, s, f, h, T, M, Q, R, prior, dt = build(c, n, m)
    q = c.gaussian('q', n)
    t, u = c.scalar('t'), c.scalar('u')
    fr = c.freeze(state=q, filter=kf, Q=Q, R=R, prior=prior)
    for tag, t, u in (('', t, u), ('later ', c.scalar('t2'), c.scalar('u2'))):
        out = c.run(kf.predict, q, t=t, u=u)
        if c.returns(tag + 'returned', out):
            mu, S, _ = predict(c, T, f, q, Q, t, u)
            c.eq(tag + 'mean', out.value.mean, mu)
            c.eq(tag + 'covariance', out.value.cov, S)
        fr.unchanged()


@contract('C16', FN, cases=NM)
def conditioning(c):
    """correct: conditions on the measurement with the measurement transform and noise"""
    n, m = c.dim('n'), c.dim('m')
    kf, s, f, h, T, M, Q, R, prior, dt = build(c, n, m)
    q, y = c.gaussian('q', n), c.vector('y', m)
    t, u = c.scalar('t'), c.scalar('u')
    meas = c.choice('squeezed', [False, True])
    fr = c.freeze(state=q, filter=kf, Q=Q, R=R, prior=prior, y=y)
    for tag, y, t, u in (('', y, t, u), ('later ', y, c.scalar('t2'), c.scalar('u2')), ('other data ', c.vector('y2', m), t, u)):
        out = c.run(kf.correct, q, c.np.squeeze(y) if meas else y, t=t, u=u)
        if c.returns(tag + 'returned', out):
            mm, P = correct(c, M, h, q, R, y, t, u)
            c.eq(tag + 'mean', out.value.mean, mm)
            c.eq(tag + 'covariance', out.value.cov, P)
        fr.unchanged()


@contract('C16', FN, cases=steps((1, 2)) + steps((3,), (1, 1), ('n', 'm')), thorough=steps((1, 2, 3, 4)), bounded=bound, trials=4,
          extra=steps((5, 12), (1, 1), ('n', 'm')), tol=1e-5)
def run(c):
    """one state per measurement, in order, each from the one before it at time t_zero + k dt; twice gives the same"""
    n, m, N = c.dim('n'), c.dim('m'), c.case['N']
    kf, s, f, h, T, M, Q, R, prior, dt = build(c, n, m)
    ys, meas = measurements(c, m, N)
    kw = {}
    start, t0, u = prior, 0.0, None
    if c.choice('prior given', [False, True]):
        start = kw['prior_state'] = c.gaussian('start', n)
    if c.choice('time and input given', [False, True]):
        t0, u = kw['t_zero'], kw['u'] = c.scalar('t0'), c.scalar('u')
    fr = c.freeze(filter=kf, prior=prior, start=start, measurements=meas, Q=Q, R=R)
    want = filtered(c, T, M, f, h, Q, R, start, ys, t0, dt, u)
    for again in ('', 'again '):
        out = c.run(kf.kalman_filter, meas, **kw)
        if c.returns(again + 'returned', out):
            compare(c, out.value, want, again)
        fr.unchanged()


ANY = [{'n': 1, 'm': 1}, {'n': 'n', 'm': 'm'}]


@contract('C16', FN, cases=ANY, thorough=NM, trials=6, tol=1e-5, soft=True, limit=40)
def any_number(c):
    """for every number of measurements: state k is the prediction and correction of state k-1"""
    n, m = c.dim('n'), c.dim('m')
    N = c.length('N', 0)
    kf, s, f, h, T, M, Q, R, prior, dt = build(c, n, m)
    ys = c.sequence('y', N, m)
    meas = ys
    if c.choice('rows', [False, True]):
        meas = c.seq(N, lambda i: c.np.reshape(c.at(ys, i), (1, c.size(m))))
    kw = {}
    start, t0, u = prior, 0.0, None
    if c.choice('prior, time and input given', [False, True]):
        start = kw['prior_state'] = c.gaussian('start', n)
        t0, u = kw['t_zero'], kw['u'] = c.scalar('t0'), c.scalar('u')
    fr = c.freeze(filter=kf, prior=prior, start=start, Q=Q, R=R)

    def step(k, w):
        mu, S, _ = predict(c, T, f, state(c, *w), Q, t0 + k * dt, u)
        return correct(c, M, h, state(c, mu, S), R, c.at(ys, k), t0 + k * dt, u)
    W = c.recursion('filtered', (start.mean, start.cov), step, (n, (n, 'sym')))
    out = c.run(kf.kalman_filter, meas, **kw)
    if c.returns('returned', out):
        c.eq('number of states', c.len(out.value), N)
        for k in c.each('k', N):
            got = c.at(out.value, k)
            c.follows('state', (got.mean, got.cov), W, k + 1, part=('mean', 'covariance'))
    fr.unchanged()
