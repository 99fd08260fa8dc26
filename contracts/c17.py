"""C17  Gaussian smoother: backward recursion over the filtered states."""
from epv.registry import contract, NS
from contracts.kalman import K, at, bound, compare, predict, smooth, smoothed, state, steps, system

FN = [K + 'KalmanFilterSmoother.smooth', K + 'KalmanFilterSmoother.kalman_smoother', K + 'KalmanFilterSmoother.__init__',
      'StateModel.Gaussian:Gaussian.copy']


def build(c, n):
    f, h = c.func('f', n, n), c.func('h', n, n)
    s, Q, R, prior, dt = system(c, n, n, f, h)
    T = c.transform('T', n, n)
    M = c.transform('M', n, n)
    return c.get(K + 'KalmanFilterSmoother')(T, s, M), f, T, Q, R, dt, prior


@contract('C17', FN, cases=NS)
def one_step(c):
    """smooth: m + J (m_s - mu), P + J (P_s - S) J^T with J = C S^-1 at the given time"""
    n = c.dim('n')
    ks, f, T, Q, R, dt, prior = build(c, n)
    q, nxt = c.gaussian('q', n), c.gaussian('next', n)
    t, u = c.scalar('t'), c.scalar('u')
    agree = c.choice('next agrees with the prediction in', ['nothing', 'covariance', 'mean'])
    if agree != 'nothing':
        mu, S, _ = predict(c, T, f, q, Q, t, u)
        nxt = c.mod('StateModel').Gaussian(*((nxt.mean, S) if agree == 'covariance' else (mu, nxt.cov)))
    fr = c.freeze(state=q, next=nxt, smoother=ks, Q=Q, R=R, prior=prior)
    for tag, nx, t, u in (('', nxt, t, u), ('later ', nxt, c.scalar('t2'), c.scalar('u2')), ('other ', c.gaussian('other', n), t, u)):
        out = c.run(ks.smooth, q, nx, t=t, u=u)
        if c.returns(tag + 'returned', out):
            m, P = smooth(c, T, f, q, nx, Q, t, u)
            c.eq(tag + 'mean', out.value.mean, m)
            c.eq(tag + 'covariance', out.value.cov, P)
        fr.unchanged()


@contract('C17', FN, cases=NS)
def no_new_information(c):
    """a successor that is exactly the prediction leaves the filtered state unchanged"""
    n = c.dim('n')
    ks, f, T, Q, R, dt, prior = build(c, n)
    q = c.gaussian('q', n)
    t, u = c.scalar('t'), c.scalar('u')
    out = c.run(ks.smooth, q, ks.predict(q, t=t, u=u), t=t, u=u)
    if c.returns('returned', out):
        c.eq('mean', out.value.mean, q.mean)
        c.eq('covariance', out.value.cov, q.cov)


CASES = [{'n': d, 'N': k} for k in (1, 2, 3) for d in (1, 'n')]


@contract('C17', FN, cases=CASES, thorough=CASES + [{'n': d, 'N': k} for k in (4, 5) for d in (1, 'n')], bounded=bound, trials=6,
          extra=[{'n': d, 'N': k} for k in (6, 12) for d in (1, 'n')], tol=1e-5)
def run(c):
    """one state per filtered state in time order, the last one kept, each earlier one smoothed towards its successor
    with the transition at time t_zero + (i+1) dt"""
    n, N = c.dim('n'), c.case['N']
    ks, f, T, Q, R, dt, prior = build(c, n)
    fs = [c.gaussian('q%d' % i, n) for i in range(N)]
    kw, t0, u = {}, 0.0, None
    if c.choice('time and input given', [False, True]):
        t0, u = kw['t_zero'], kw['u'] = c.scalar('t0'), c.scalar('u')
    fr = c.freeze(filtered=fs, smoother=ks, Q=Q, R=R, prior=prior)
    want = smoothed(c, T, f, Q, fs, t0, dt, u)
    for again in ('', 'again '):
        out = c.run(ks.kalman_smoother, fs, **kw)
        if c.returns(again + 'returned', out):
            compare(c, out.value, want, again)
        fr.unchanged()


@contract('C17', FN + [K + 'KalmanFilterSmoother.kalman_filter'], cases=CASES[:6], extra=[{'n': 'n', 'N': 11}], bounded=bound, trials=4)
def after_the_filter(c):
    """smoothing what the filter returned uses the transition the filter used for every step"""
    n, N = c.dim('n'), c.case['N']
    ks, f, T, Q, R, dt, prior = build(c, n)
    seen = []
    real = ks.transition
    ks.transition = lambda x, t=None, u=None: (seen.append((t, u)), real(x, t=t, u=u))[1]
    ys = [c.vector('y%d' % i, n) for i in range(N)]
    t0, u = c.scalar('t0'), c.scalar('u')
    out = c.run(ks.kalman_filter, ys, t_zero=t0, u=u)
    if not c.returns('filter returned', out):
        return

    def times():
        r = []
        for t, v in seen:
            if not r or not c.same(t, r[-1]):
                r.append(t)
            c.eq('input', v, u)
        del seen[:]
        return r
    forward = times()
    back = c.run(ks.kalman_smoother, out.value, t_zero=t0, u=u)
    if c.returns('smoother returned', back):
        got = times()
        got.reverse()
        c.eq('one transition per earlier state', len(got), N - 1)
        for a, b in zip(got, forward[1:]):
            c.eq('time of the transition', a, b)


@contract('C17', FN, cases=NS, trials=6, tol=1e-5, soft=True, limit=40)
def any_number(c):
    """for every number of filtered states: the last one is kept, each earlier one smoothed towards its successor"""
    n = c.dim('n')
    N = c.length('N')
    ks, f, T, Q, R, dt, prior = build(c, n)
    fs = c.states('q', N, n)
    kw, t0, u = {}, 0.0, None
    if c.choice('time and input given', [False, True]):
        t0, u = kw['t_zero'], kw['u'] = c.scalar('t0'), c.scalar('u')
    fr = c.freeze(smoother=ks, Q=Q, R=R, prior=prior)

    def step(k, w):
        i = N - 2 - k
        return smooth(c, T, f, c.at(fs, i), state(c, *w), Q, t0 + (i + 1) * dt, u)
    last = c.at(fs, N - 1)
    W = c.recursion('smoothed', (last.mean, last.cov), step, (n, (n, 'sym')))
    out = c.run(ks.kalman_smoother, fs, **kw)
    if c.returns('returned', out):
        c.eq('number of states', c.len(out.value), N)
        for j in c.each('j', N):
            got = c.at(out.value, j)
            c.follows('state', (got.mean, got.cov), W, N - 1 - j, part=('mean', 'covariance'))
    fr.unchanged()
