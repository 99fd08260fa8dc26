"""Shared by the contracts of the filters: a state-space model with arbitrary functions, and the textbook recursions."""

K = 'Filters.KalmanFilter:'


def system(c, n, m, f, h, prior=None, dt=None, Q=None, R=None):
    D = c.mod('Systems.DynamicSystem')
    G = c.mod('StateModel').Gaussian
    Q = c.pd('Q', n) if Q is None else Q
    R = c.pd('R', m) if R is None else R
    prior = G(c.vector('m0', n), c.pd('P0', n)) if prior is None else prior
    dt = c.scalar('dt', pos=True) if dt is None else dt
    s = D.DynamicSystemModel(system_dim=c.size(n), measurement_dim=c.size(m), transition=f, measurement=h,
                             system_noise=D.GaussianNoise(dimension=c.size(n), cov=Q),
                             measurement_noise=D.GaussianNoise(dimension=c.size(m), cov=R), init_distribution=prior, dt=dt)
    return s, Q, R, prior, dt


def at(func, t, u):
    return lambda x: func(x, t=t, u=u)


def predict(c, T, f, s, Q, t, u):
    """(mean, cov, cross) of the prediction with noise."""
    mu, S, C = T(at(f, t, u), s)
    return mu, S + Q, C


def correct(c, M, h, s, R, y, t, u):
    z, S, C = M(at(h, t, u), s)
    G = C @ c.inv(S + R)
    return s.mean + G @ (y - z), s.cov - G @ C.T


def smooth(c, T, f, s, nxt, Q, t, u):
    mu, S, C = predict(c, T, f, s, Q, t, u)
    J = C @ c.inv(S)
    return s.mean + J @ (nxt.mean - mu), s.cov + J @ (nxt.cov - S) @ J.T


def state(c, m, P):
    return c.obj(mean=m, cov=P)


def filtered(c, T, M, f, h, Q, R, prior, ys, t0, dt, u):
    """The filter as a recursion over the measurements."""
    out, s = [], prior
    for k, y in enumerate(ys):
        t = t0 + k * dt
        mu, S, _ = predict(c, T, f, s, Q, t, u)
        s = state(c, *correct(c, M, h, state(c, mu, S), R, y, t, u))
        out.append(s)
    return out


def smoothed(c, T, f, Q, fs, t0, dt, u):
    out = [state(c, fs[-1].mean, fs[-1].cov)]
    for i in reversed(range(len(fs) - 1)):
        out.insert(0, state(c, *smooth(c, T, f, fs[i], out[0], Q, t0 + (i + 1) * dt, u)))
    return out


def compare(c, got, want, tag=''):
    if not c.symbolic:
        c.assume(all(abs(w.mean).max() < 1e4 and abs(w.cov).max() < 1e6 for w in want))     # trajectories that do not explode
    c.eq(tag + 'number of states', len(got), len(want))
    for g, w in zip(got, want):
        c.eq(tag + 'mean', g.mean, w.mean)
        c.eq(tag + 'covariance', g.cov, w.cov)


def measurements(c, m, N):
    ys = [c.vector('y%d' % i, m) for i in range(N)]
    if c.choice('rows', [False, True]):
        return ys, [c.np.reshape(y, (1, c.size(m))) for y in ys]
    return ys, list(ys)


def taylor(c, style_rows=False):
    """First-order moments of an arbitrary function: what the Taylor transform returns (C06)."""
    def T(func, s):
        return func.first(s)
    return T


def bound(case):
    return '%d time steps' % case['N'] + (', %d iterations' % case['it'] if 'it' in case else '')


def steps(Ns, *dims, **extra):
    dims = dims or ((1, 1), (1, 'm'), ('n', 1), ('n', 'm'))
    out = []
    for N in Ns:
        for n, m in dims:
            if extra:
                for it in extra['it']:
                    out.append({'n': n, 'm': m, 'N': N, 'it': it})
            else:
                out.append({'n': n, 'm': m, 'N': N})
    return out
