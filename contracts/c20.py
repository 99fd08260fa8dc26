"""C20  Iterated smoother linearises at the current trajectory and is repeatable."""
from epv.registry import contract
from contracts.kalman import K, bound, compare, measurements, state, steps, system
from contracts.c19 import Rows, vec

FN = [K + 'IEKS.__init__', K + 'IEKS._linearise', K + 'IEKS._kalman_filter', K + 'IEKS._kalman_smoother', K + 'IEKS.__call__',
      K + 'KalmanFilterSmoother.kalman_filter', K + 'KalmanFilterSmoother.kalman_smoother',
      'MomentMatching.TaylorLinearisation:TaylorTransform._transform']


def linear(c, f, x0, t, u):
    """(value at m, matrix) of f linearised around x0."""
    A = f.jac(x0, t, u)
    v = vec(c, f, x0, t, u)
    return (lambda m: v + A @ (m - x0)), A


def pass_once(c, f, h, Q, R, prior, ys, dt, fpts, hpts):
    """Filter and smoother of the model linearised at the given points (None: at the current state)."""
    fs, preds, s = [], [], prior
    for k, y in enumerate(ys):
        g, F = linear(c, f, s.mean if fpts is None else fpts[k], k * dt, None)
        p = state(c, g(s.mean), F @ s.cov @ F.T + Q)
        preds.append((p, s.cov @ F.T))
        g, H = linear(c, h, p.mean if hpts is None else hpts[k], k * dt, None)
        G = p.cov @ H.T @ c.inv(H @ p.cov @ H.T + R)
        s = state(c, p.mean + G @ (y - g(p.mean)), p.cov - G @ H @ p.cov)
        fs.append(s)
    out = [fs[-1]]
    for i in reversed(range(len(fs) - 1)):
        p, C = preds[i + 1]
        J = C @ c.inv(p.cov)
        out.insert(0, state(c, fs[i].mean + J @ (out[0].mean - p.mean), fs[i].cov + J @ (out[0].cov - p.cov) @ J.T))
    return out


def spec(c, f, h, Q, R, prior, ys, dt, it):
    out = pass_once(c, f, h, Q, R, prior, ys, dt, None, None)
    for _ in range(it - 1):
        xs = [s.mean for s in out]
        out = pass_once(c, f, h, Q, R, prior, ys, dt, [prior.mean] + xs[:-1], xs)
    return out


DIMS = ((1, 1), (1, 'm'), ('n', 1), ('n', 'm'))
CASES = steps((1,), *DIMS, it=(1, 2, 3)) + steps((2,), (1, 1), it=(1, 2))
LONG = CASES + steps((3,), (1, 1), it=(1,))
MORE = steps((2, 3), *DIMS, it=(1, 2)) + steps((3,), ('n', 'm'), it=(3, 4)) + steps((9,), (1, 1), ('n', 'm'), it=(2,)) + steps((1,), ('n', 'm'), it=(10,))


@contract('C20', FN, cases=CASES, thorough=LONG, extra=MORE, bounded=bound, trials=3, tol=1e-5, limit=120)
def iterations(c):
    """one iteration is the extended smoother; each further one the smoother of the model linearised at the trajectory;
    calling again returns the same"""
    n, m, N, it = c.dim('n'), c.dim('m'), c.case['N'], c.case['it']
    style = c.choice('style', ['row1', 'vec'])
    f, h = c.func('f', n, n, style=style), c.func('h', n, m, style=style)
    s, Q, R, prior, dt = system(c, n, m, f, h)
    ys, meas = measurements(c, m, N)
    ks = c.get(K + 'IEKS')(s, c.size(n))
    want = spec(c, f, h, Q, R, prior, ys, dt, it)
    fr = c.freeze(measurements=meas, prior=prior, Q=Q, R=R, system=s)
    for again in ('', 'again '):
        out = c.run(ks, meas, num_iter=it)
        if c.returns(again + 'returned', out):
            compare(c, out.value, want, again)
        fr.unchanged()


@contract('C20', FN, cases=steps((1,), *DIMS, it=(1,)) + steps((2,), (1, 1), it=(1,)), extra=steps((2, 3), *DIMS, it=(1, 2)), bounded=bound, trials=3, tol=1e-5)
def other_data(c):
    """earlier data leave nothing behind"""
    n, m, N, it = c.dim('n'), c.dim('m'), c.case['N'], c.case['it']
    f, h = c.func('f', n, n, style='row1'), c.func('h', n, m, style='row1')
    s, Q, R, prior, dt = system(c, n, m, f, h)
    ks = c.get(K + 'IEKS')(s, c.size(n))
    zs = [c.vector('z%d' % i, m) for i in range(1)]
    c.run(ks, zs, num_iter=2)
    ys = [c.vector('y%d' % i, m) for i in range(N)]
    out = c.run(ks, ys, num_iter=it)
    if c.returns('returned', out):
        compare(c, out.value, spec(c, f, h, Q, R, prior, ys, dt, it))


@contract('C20', FN, cases=steps((1,), (1, 1), ('n', 'm'), it=(2,)) + steps((2,), (1, 1), it=(2,)), extra=steps((2, 3), ('n', 'm'), it=(2, 3)), bounded=bound, trials=4, tol=1e-5)
def affine(c):
    """affine systems: every iteration count gives the same answer"""
    n, m, N, it = c.dim('n'), c.dim('m'), c.case['N'], c.case['it']
    f = Rows(c.matrix('A', n, n), c.vector('a', n), c.anp)
    h = Rows(c.matrix('H', m, n), c.vector('b', m), c.anp)
    s, Q, R, prior, dt = system(c, n, m, f, h)
    ys = [c.vector('y%d' % i, m) for i in range(N)]
    ks = c.get(K + 'IEKS')(s, c.size(n))
    a, b = c.run(ks, ys, num_iter=1), c.run(ks, ys, num_iter=it)
    if c.returns('returned', a) and c.returns('returned', b):
        compare(c, b.value, a.value)


@contract('C20', FN[1:2], cases=[{'n': a, 'm': b} for a, b in DIMS])
def linearised_function(c):
    """the linearisation around x0: value plus Jacobian there, at the time and input it is called with, at any point"""
    n, m = c.dim('n'), c.dim('m')
    h = c.func('h', n, m, style=c.choice('style', ['row1', 'vec']))
    x0 = c.vector('x0', n)
    g = c.get(K + 'IEKS')._linearise(h, lambda x, t=None, u=None: h.jac(x, t, u), x0)
    for i in range(3):
        x, t, u = c.vector('x%d' % (i + 1), n), c.scalar('t%d' % i), c.scalar('u%d' % i)
        out = c.run(g, x, t=t, u=u)
        if c.returns('returned', out):
            c.eq('value', c.np.reshape(out.value, (c.size(m),)), vec(c, h, x0, t, u) + h.jac(x0, t, u) @ (x - x0))


@contract('C20', FN, cases=[{'n': d, 'm': e, 'it': k} for k in (1, 2) for d, e in ((1, 1), ('n', 'm'))], bounded=lambda case: '' if case['it'] == 1 else 'any number of time steps, %d iterations' % case['it'],
          trials=4, tol=1e-5, soft=True, limit=300)
def any_number_of_measurements(c):
    """for every number of measurements: each iteration is the filter and smoother of the model linearised at the last trajectory"""
    n, m, it = c.dim('n'), c.dim('m'), c.case['it']
    N = c.length('N', most=5)
    f, h = c.func('f', n, n, style='row1'), c.func('h', n, m, style='row1')
    s, Q, R, prior, dt = system(c, n, m, f, h)
    ys = c.sequence('y', N, m)
    ks = c.get(K + 'IEKS')(s, c.size(n))
    like, slike = (n, (n, 'psd')), (n, (n, 'sym'))

    def forward(j, k, s, last):
        """State k of pass j from state k-1; last: the trajectory of the pass before."""
        fx = s.mean if last is None else prior.mean if k is None else last(k - 1)
        k = 0 if k is None else k
        g, F = linear(c, f, fx, k * dt, None)
        p = state(c, g(s.mean), F @ s.cov @ F.T + Q)
        g, H = linear(c, h, p.mean if last is None else last(k), k * dt, None)
        G = p.cov @ H.T @ c.inv(H @ p.cov @ H.T + R)
        return p.mean + G @ (c.at(ys, k) - g(p.mean)), p.cov - G @ H @ p.cov

    def backward(i, s, nxt, last):
        """Smoothed state i from the filtered one and smoothed state i+1."""
        g, F = linear(c, f, s.mean if last is None else last(i), (i + 1) * dt, None)
        p = state(c, g(s.mean), F @ s.cov @ F.T + Q)
        J = s.cov @ F.T @ c.inv(p.cov)
        return s.mean + J @ (nxt.mean - p.mean), s.cov + J @ (nxt.cov - p.cov) @ J.T

    last = None
    for j in range(it):
        def fstep(k, w, j=j, last=last):
            return forward(j, k + 1, state(c, *w), last)
        W = c.recursion('filtered %d' % j, lambda j=j, last=last: forward(j, None, prior, last), fstep, like, opaque=True)

        def bstep(k, w, W=W, last=last):
            i = N - 2 - k
            return backward(i, state(c, *W.at(i)), state(c, *w), last)
        V = c.recursion('smoothed %d' % j, lambda W=W: W.at(N - 1), bstep, slike)
        last = lambda i, V=V: V.at(N - 1 - i)[0]
    out = c.run(ks, ys, num_iter=it)
    if c.returns('returned', out):
        c.eq('number of states', c.len(out.value), N)
        for k in c.each('k', N):
            got = c.at(out.value, k)
            c.follows('state', (got.mean, got.cov), V, N - 1 - k, part=('mean', 'covariance'))
