"""C19  Iterated EKF performs Gauss-Newton measurement updates."""
from epv.registry import contract
from contracts.kalman import K, bound, compare, measurements, state, steps, system

FN = [K + 'IEKF.__init__', K + 'IEKF._iterated_update', K + 'IEKF.__call__', K + 'KalmanFilterSmoother.predict',
      'MomentMatching.TaylorLinearisation:TaylorTransform._transform']


def ekf_predict(c, f, s, Q, t, u):
    F = f.jac(s.mean, t, u)
    return state(c, vec(c, f, s.mean, t, u), F @ s.cov @ F.T + Q)


def vec(c, f, x, t, u):
    return c.np.reshape(f(x, t=t, u=u), c.shape(f.jac(x, t, u))[:1])


def gauss_newton(c, h, s, R, y, t, u, it):
    """it iterations: linearise h at the iterate, condition the predicted s (never the iterate) on y."""
    x = s.mean
    P = s.cov
    for _ in range(it):
        H = h.jac(x, t, u)
        z = vec(c, h, x, t, u) + H @ (s.mean - x)
        G = s.cov @ H.T @ c.inv(H @ s.cov @ H.T + R)
        x, P = s.mean + G @ (y - z), s.cov - G @ H @ s.cov
    return state(c, x, P)


def recursion(c, f, h, Q, R, prior, ys, t0, dt, u, it):
    out, s = [], prior
    for k, y in enumerate(ys):
        t = t0 + k * dt
        s = gauss_newton(c, h, ekf_predict(c, f, s, Q, t, u), R, y, t, u, it)
        out.append(s)
    return out


DIMS = ((1, 1), (1, 'm'), ('n', 1), ('n', 'm'))
CASES = steps((1,), *DIMS, it=(1, 2, 3)) + steps((2,), (1, 1), it=(1, 2))
MORE = steps((2,), (1, 'm'), ('n', 1), ('n', 'm'), it=(1, 2)) + steps((3,), ('n', 'm'), it=(2, 5)) + steps((10,), (1, 1), ('n', 'm'), it=(2,)) + steps((1,), ('n', 'm'), it=(11,))


@contract('C19', FN, cases=CASES, extra=MORE, thorough=CASES + steps((1,), (1, 1), ('n', 1), it=(4,)), bounded=bound, trials=3,
          tol=1e-5)
def iterations(c):
    """num_iter Gauss-Newton steps per measurement from the predicted distribution; states follow each other as in the filter"""
    n, m, N, it = c.dim('n'), c.dim('m'), c.case['N'], c.case['it']
    f, h = c.func('f', n, n, style='row1'), c.func('h', n, m, style='row1')
    s, Q, R, prior, dt = system(c, n, m, f, h)
    ys, meas = measurements(c, m, N)
    kf = c.get(K + 'IEKF')(s, c.size(n))
    kw, start, t0, u = {'num_iter': it}, prior, 0.0, None
    if c.choice('options', [False, True]):
        start = kw['prior_state'] = c.gaussian('start', n)
        t0, u = kw['t_zero'], kw['u'] = c.scalar('t0'), c.scalar('u')
    fr = c.freeze(measurements=meas, start=start, prior=prior, Q=Q, R=R)
    out = c.run(kf, meas, **kw)
    if c.returns('returned', out):
        compare(c, out.value, recursion(c, f, h, Q, R, start, ys, t0, dt, u, it))
    fr.unchanged()


class Rows(object):
    """A vector function written as a function of one row, returning one row."""

    def __init__(self, A, b, np):
        self.A, self.b, self.np = A, b, np

    def __call__(self, x, t=None, u=None):
        x = self.np.atleast_2d(x)
        return self.np.dot(x, self.A.T) + self.b


@contract('C19', FN, cases=steps((1,), *DIMS, it=(2, 3)) + steps((2,), (1, 1), it=(2,)), extra=steps((2, 3), ('n', 'm'), it=(2,)), bounded=bound, trials=4, tol=1e-5)
def affine(c):
    """for an affine measurement any number of iterations gives the extended Kalman filter"""
    n, m, N, it = c.dim('n'), c.dim('m'), c.case['N'], c.case['it']
    f = c.func('f', n, n, style='row1')
    h = Rows(c.matrix('H', m, n), c.vector('b', m), c.anp)
    s, Q, R, prior, dt = system(c, n, m, f, h)
    ys, meas = measurements(c, m, N)
    TT = c.mod('MomentMatching').TaylorTransform
    ekf = c.get(K + 'KalmanFilterSmoother')(TT(dim=c.size(n)), s)
    a = c.run(c.get(K + 'IEKF')(s, c.size(n)), meas, num_iter=it)
    b = c.run(ekf.kalman_filter, meas)
    if c.returns('iterated filter returned', a) and c.returns('extended filter returned', b):
        compare(c, a.value, b.value)


@contract('C19', FN, cases=steps((1,), *DIMS) + steps((2,), (1, 1)), extra=steps((2, 3), ('n', 'm')), bounded=bound, trials=4, tol=1e-5)
def single(c):
    """with one iteration it is the extended Kalman filter"""
    n, m, N = c.dim('n'), c.dim('m'), c.case['N']
    f, h = c.func('f', n, n, style='row1'), c.func('h', n, m, style='row1')
    s, Q, R, prior, dt = system(c, n, m, f, h)
    ys, meas = measurements(c, m, N)
    TT = c.mod('MomentMatching').TaylorTransform
    ekf = c.get(K + 'KalmanFilterSmoother')(TT(dim=c.size(n)), s)
    a = c.run(c.get(K + 'IEKF')(s, c.size(n)), meas, num_iter=1)
    b = c.run(ekf.kalman_filter, meas)
    if c.returns('iterated filter returned', a) and c.returns('extended filter returned', b):
        compare(c, a.value, b.value)


DM = [{'n': a, 'm': b} for a, b in DIMS]


def build(c, n, m, f, h):
    s, Q, R, prior, dt = system(c, n, m, f, h)
    return c.get(K + 'IEKF')(s, c.size(n)), Q, R, prior, dt


@contract('C19', FN, cases=DM, tol=1e-5, soft=True, concrete=False, limit=40)
def any_number_of_iterations(c):
    """_iterated_update for every num_iter: each iterate is one Gauss-Newton step of the one before"""
    n, m = c.dim('n'), c.dim('m')
    f, h = c.func('f', n, n, style='row1'), c.func('h', n, m, style='row1')
    kf, Q, R, prior, dt = build(c, n, m, f, h)
    q, y, t, u = c.gaussian('q', n), c.vector('y', m), c.scalar('t'), c.scalar('u')
    it = kf.num_iter = c.length('num_iter', 0)
    fr = c.freeze(state=q, y=y, filter=kf, Q=Q, R=R, prior=prior)

    def step(k, w):
        x = w[0]
        H = h.jac(x, t, u)
        z = vec(c, h, x, t, u) + H @ (q.mean - x)
        G = q.cov @ H.T @ c.inv(H @ q.cov @ H.T + R)
        return q.mean + G @ (y - z), q.cov - G @ H @ q.cov
    W = c.recursion('iterate', (q.mean, q.cov), step, (n, (n, 'sym')))
    out = c.run(kf._iterated_update, q, y, t=t, u=u)
    if c.returns('returned', out):
        c.follows('state', (out.value.mean, out.value.cov), W, it, part=('mean', 'covariance'))
    fr.unchanged()


@contract('C19', FN, cases=DM, tol=1e-5, soft=True, concrete=False, limit=40)
def any_number_of_measurements(c):
    """for every number of measurements: state k is the prediction of state k-1 and its update, by the contract of
    _iterated_update"""
    n, m = c.dim('n'), c.dim('m')
    N = c.length('N', 0)
    f, h = c.func('f', n, n, style='row1'), c.func('h', n, m, style='row1')
    kf, Q, R, prior, dt = build(c, n, m, f, h)
    G = c.mod('StateModel').Gaussian
    used = c.log()
    V = c.transform('updated', n, n)
    gn = c.func('gn', m, n)

    def U2(s, y, t, u):
        return V(lambda x: gn(c.np.reshape(y, (c.size(m),)), t=t, u=u), s)

    def stub(s, y, t=None, u=None):
        used.append(kf.num_iter)
        return G(*U2(s, y, t, u)[:2])
    kf._iterated_update = stub
    it = c.length('num_iter', 0)
    ys = c.sequence('y', N, m)
    meas = ys
    if c.choice('rows', [False, True]):
        meas = c.seq(N, lambda i: c.np.reshape(c.at(ys, i), (1, c.size(m))))
    kw, start, t0, u = {'num_iter': it}, prior, 0.0, None
    if c.choice('options', [False, True]):
        start = kw['prior_state'] = c.gaussian('start', n)
        t0, u = kw['t_zero'], kw['u'] = c.scalar('t0'), c.scalar('u')
    fr = c.freeze(start=start, prior=prior, Q=Q, R=R)

    def step(k, w):
        p = ekf_predict(c, f, state(c, *w), Q, t0 + k * dt, u)
        return U2(p, c.at(ys, k), t0 + k * dt, u)[:2]
    W = c.recursion('filtered', (start.mean, start.cov), step, (n, (n, 'sym')))
    out = c.run(kf, meas, **kw)
    if c.returns('returned', out):
        c.eq('number of states', c.len(out.value), N)
        c.eq('one update per measurement', c.len(used), N)
        for k in c.each('k', N):
            got = c.at(out.value, k)
            c.follows('state', (got.mean, got.cov), W, k + 1, part=('mean', 'covariance'))
            c.eq('iterations of the update', c.at(used, k), it)
    fr.unchanged()
