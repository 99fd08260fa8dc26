"""C23  Benchmark dynamics equal their documented equations, row by row."""
from epv.registry import contract

S = 'Systems.'
ROWS = ({'k': None}, {'k': 1}, {'k': 'k'})


def points(c, n, case):
    """One point (k None) or k points as rows; returns (argument, symbolic or actual rows)."""
    k = case.get('k')
    if k is None:
        return c.vector('x', n), None
    return c.matrix('x', c.dim('k'), n), c.dim('k')


def check_rows(c, label, got, x, k, one, out=None):
    """Every row of got is what `one` gives for that row alone; a single point may come back as a vector or one row."""
    if k is None:
        w = one(x)
        g = got if len(c.shape(got)) == 1 else c.np.reshape(got, (c.shape(w)[0],))
        c.eq(label, g, w)
        return
    c.eq(label + ': one row per point', c.shape(got)[0], c.shape(x)[0])
    c.eq(label, got, one(x.T).T)


def calls(c, f, x, t, u):
    """f with time and input given by keyword in any of the usual ways."""
    how = c.choice('call', ['keywords', 'positional', 'time only'])
    if how == 'keywords':
        return c.run(f, x, t=t, u=u)
    if how == 'positional':
        return c.run(f, x, t, u)
    return c.run(f, x, t=t)


@contract('C23', [S + 'UniformNonlinearGrowthModel:f'], cases=[dict(k, n=1) for k in ROWS], trials=12)
def growth(c):
    """x/2 + 25x/(1+x^2) + 8 cos(1.2 t)"""
    n = c.dim('n')
    np = c.np
    f = c.choice('of', ['module', 'system'])
    f = c.get(S + 'UniformNonlinearGrowthModel:f') if f == 'module' else c.mod('Systems').UniformNonlinearGrowthModel().transition
    x, k = points(c, n, c.case)
    t, u = c.scalar('t'), c.scalar('u')
    fr = c.freeze(x=x)
    out = calls(c, f, x, t, u)
    if c.returns('returned', out):
        check_rows(c, 'growth', out.value, x, k, lambda z: z / 2 + 25 * z / (1 + z * z) + 8 * np.cos(1.2 * t))
    fr.unchanged()


@contract('C23', [S + 'BearingsOnlyTracking:f'], cases=[dict(k, n=4) for k in ROWS], trials=12)
def constant_velocity(c):
    """positions advance by delta_t times the velocities, velocities stay"""
    n = c.dim('n')
    np = c.np
    mod = c.mod(S + 'BearingsOnlyTracking')
    d = c.scalar('d', pos=True)
    kind = c.choice('of', ['module', 'system', 'default', 'default system'])
    if kind == 'module':
        f = lambda x, *a, **k: mod.f(x, *a, delta_t=d, **k)
    elif kind == 'system':
        f = mod.BearingsOnlyTracking(delta_t=d).transition
    else:
        d = 0.1
        f = mod.f if kind == 'default' else mod.BearingsOnlyTracking().transition
    x, k = points(c, n, c.case)
    t, u = c.scalar('t'), c.scalar('u')
    fr = c.freeze(x=x)
    out = calls(c, f, x, t, u)
    if c.returns('returned', out):
        check_rows(c, 'constant velocity', out.value, x, k,
                   lambda z: np.array([z[0] + d * z[2], z[1] + d * z[3], z[2], z[3]]))
    fr.unchanged()


@contract('C23', [S + 'BearingOnlyTrackingTurn:f'], cases=[dict(k, n=5) for k in ROWS], extra=[{'k': 30, 'n': 5}], trials=12)
def coordinated_turn(c):
    """the velocity rotates by turn rate times delta_t and is integrated exactly"""
    n = c.dim('n')
    np = c.np
    mod = c.mod(S + 'BearingOnlyTrackingTurn')
    d = c.scalar('d', pos=True)
    kind = c.choice('of', ['module', 'system', 'default', 'default system'])
    if kind == 'module':
        f = lambda x, *a, **k: mod.f(x, *a, delta_t=d, **k)
    elif kind == 'system':
        f = mod.BearingsOnlyTrackingTurn(delta_t=d).transition
    else:
        d = 1
        f = mod.f if kind == 'default' else mod.BearingsOnlyTrackingTurn().transition
    x, k = points(c, n, c.case)
    if not c.symbolic:
        x[..., 4] = x[..., 4] * c.choice('turn rate', [1.0, 1e-2, 1e-3, 1e-5])
    t, u = c.scalar('t'), c.scalar('u')
    fr = c.freeze(x=x)
    out = calls(c, f, x, t, u)

    def one(z):
        w = z[4]
        a = w * d
        s, co = np.sin(a), np.cos(a)
        return np.array([z[0] + s / w * z[1] - (1 - co) / w * z[3], co * z[1] - s * z[3],
                         z[2] + (1 - co) / w * z[1] + s / w * z[3], s * z[1] + co * z[3], w])
    if c.returns('returned', out):
        check_rows(c, 'coordinated turn', out.value, x, k, one)
        if k is None:
            y = out.value if len(c.shape(out.value)) == 1 else out.value[0]
            c.eq('speed is kept', y[1] * y[1] + y[3] * y[3], x[1] * x[1] + x[3] * x[3])
    fr.unchanged()


@contract('C23', [S + 'L96:f', S + 'L96:model'], cases=[dict(k, n=n) for k in ROWS for n in (4, 'n')],
          thorough=[dict(k, n=n) for k in ROWS for n in (4, 5, 6, 8, 'n')], trials=8,
          extra=[{'k': k, 'n': n} for k in (None, 30) for n in (7, 45)])
def lorenz(c):
    """one Runge-Kutta step of dx_i/dt = (x_{i+1} - x_{i-2}) x_{i-1} - x_i + F with cyclic indices"""
    n = c.dim('n')
    np = c.np
    mod = c.mod(S + 'L96')
    F, d = c.scalar('F'), c.scalar('d', pos=True)
    kind = c.choice('of', ['module', 'system', 'default'])
    if kind == 'module':
        f = lambda x, *a, **k: mod.f(x, *a, delta_t=d, F=F, **k)
    elif kind == 'system':
        np.save('start.npy', c.vector('x0', n))
        f = mod.L96(dim=c.size(n), delta_t=d, F=F, init_cond_path='start.npy').transition
    else:
        f, F, d = mod.f, 8, 0.05
    x, k = points(c, n, c.case)
    t, u = c.scalar('t'), c.scalar('u')
    fr = c.freeze(x=x)
    out = calls(c, f, x, t, u)

    def g(z):
        ahead, back, back2 = np.roll(z, -1, axis=0), np.roll(z, 1, axis=0), np.roll(z, 2, axis=0)
        return (ahead - back2) * back - z + F

    def one(z):
        a = g(z)
        b = g(z + d / 2 * a)
        e = g(z + d / 2 * b)
        h = g(z + d * e)
        return z + d / 6 * (a + 2 * b + 2 * e + h)
    if c.returns('returned', out):
        check_rows(c, 'Lorenz 96', out.value, x, k, one)
    fr.unchanged()
