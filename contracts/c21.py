"""C21  Simulation follows the state-space model."""
from epv.registry import contract

D = 'Systems.DynamicSystem:'
FN = [D + 'DynamicSystemModel.__init__', D + 'DynamicSystem._simulate', D + 'DynamicSystem.simulate', D + 'DynamicSystemModel.measure',
      D + 'GaussianNoise.sample', D + 'GaussianNoise.__init__']
CASES = [{'n': n, 'm': m, 'N': k} for k in (0, 1, 2, 3) for n, m in ((1, 1), ('n', 1), ('n', 'm'))]


def bound(case):
    return '%d time steps' % case['N']


def taken(c, e, dim):
    """The value of one recorded draw as a vector."""
    return c.np.reshape(e[2], (dim,))


@contract('C21', FN, cases=CASES, thorough=CASES + [dict(k, N=5) for k in CASES[:3]], bounded=bound, trials=8,
          extra=[{'n': n, 'm': m, 'N': k} for k in (5, 12) for n, m in ((1, 1), ('n', 'm'))])
def simulated(c):
    """N pairs; state k = transition of state k-1 at t_zero + k dt plus one fresh draw of the process noise, observation k =
    measurement of state k plus one fresh draw of the measurement noise; nothing produced is altered later"""
    n, m, N = c.dim('n'), c.dim('m'), c.case['N']
    mod = c.mod('Systems.DynamicSystem')
    G = c.mod('StateModel').Gaussian
    Q, R, P0, m0 = c.pd('Q', n), c.pd('R', m), c.pd('P0', n), c.vector('m0', n)
    dt = c.scalar('dt', pos=True)
    kind = c.choice('functions', ['any', 'identity', 'rows'])
    same = c.case['n'] == c.case['m']
    f0, h0 = c.func('f', n, n, uses=('t',)), c.func('h', n, m, uses=())
    times = []

    def f(x, t=None, u=None):
        times.append(t)
        if kind == 'identity':
            return x
        y = f0(x, t=t)
        return c.np.atleast_2d(y) if kind == 'rows' else y

    def h(x, t=None, u=None):
        if kind == 'identity' and same:
            return x
        y = h0(x)
        return c.np.atleast_2d(y) if kind == 'rows' else y
    s = mod.DynamicSystemModel(system_dim=c.size(n), measurement_dim=c.size(m), transition=f, measurement=h,
                               system_noise=mod.GaussianNoise(dimension=c.size(n), cov=Q),
                               measurement_noise=mod.GaussianNoise(dimension=c.size(m), cov=R),
                               init_distribution=G(m0, P0), dt=dt)
    start = c.choice('start', ['given', 'drawn'])
    x0 = c.vector('x0', n)
    kw = {'x_zero': x0} if start == 'given' else {}
    t0 = 0.0
    if c.choice('start time', [False, True]):
        t0 = kw['t_zero'] = c.scalar('t0')
    fr = c.freeze(x0=x0, Q=Q, R=R, P0=P0, m0=m0, initial=s.init_state)
    before = len(c.draws())
    out = c.run(s.simulate, N, **kw)
    if not c.returns('returned', out):
        return
    pairs = list(out.value)
    c.eq('number of pairs', len(pairs), N)
    ds = c.draws()[before:]
    c.true('only normal draws', all(e[1] == 'mvn' for e in ds) and not c.events('other-generator', 'seed'))
    c.eq('number of draws', len(ds), 2 * N + (start == 'drawn'))
    if any(e[1] != 'mvn' for e in ds) or len(ds) != 2 * N + (start == 'drawn') or len(pairs) != N:
        return
    x = x0
    if start == 'drawn':
        law(c, 'initial state', ds[0], m0, P0)
        x = ds[0][2]
        ds = ds[1:]
    c.eq('one transition per step', len(times), N)
    for k in range(N):
        law(c, 'process noise', ds[2 * k], c.np.zeros(c.size(n)), Q)
        law(c, 'measurement noise', ds[2 * k + 1], c.np.zeros(c.size(m)), R)
        c.eq('time of the step', times[k], t0 + k * dt)
        w, v = taken(c, ds[2 * k], c.size(n)), taken(c, ds[2 * k + 1], c.size(m))
        if kind == 'identity':
            x = x + w
        else:
            x = f0(x, t=t0 + k * dt) + w
        y = (x if kind == 'identity' and same else h0(x)) + v
        got = pairs[k]
        c.eq('pair', len(got), 2)
        row = kind == 'rows'
        c.eq('state', got[0], c.np.reshape(x, (1, c.size(n))) if row else x)
        c.eq('observation', got[1], c.np.reshape(y, (1, c.size(m))) if row else y)
    fr.unchanged()


def law(c, label, e, mean, cov):
    c.eq(label + ': mean', e[3], mean)
    c.eq(label + ': covariance', e[4], cov)
    c.true(label + ': one draw', e[5] is None or c.np.size(e[2]) == c.np.size(mean))


def stream(c, mod, values, d):
    """A noise model whose draws are the given sequence."""
    class Stream(mod.NoiseModel):
        def __init__(self):
            self.count = 0
            super(Stream, self).__init__(dimension=c.size(d), params=None)

        def sample(self):
            self.count = self.count + 1
            return c.at(values, self.count - 1)
    return Stream()


@contract('C21', FN, cases=[{'n': n, 'm': m} for n, m in ((1, 1), ('n', 1), ('n', 'm'))], soft=True, concrete=False, limit=40)
def any_number_of_steps(c):
    """for every N: state k and observation k by the recursion, one draw of each noise per step, in order"""
    n, m = c.dim('n'), c.dim('m')
    N = c.length('N', 0)
    mod = c.mod('Systems.DynamicSystem')
    G = c.mod('StateModel').Gaussian
    w, v = c.sequence('w', N, n), c.sequence('v', N, m)
    f0, h0 = c.func('f', n, n, uses=('t',)), c.func('h', n, m, uses=())
    dt, m0, P0 = c.scalar('dt', pos=True), c.vector('m0', n), c.pd('P0', n)
    W, V = stream(c, mod, w, n), stream(c, mod, v, m)
    s = mod.DynamicSystemModel(system_dim=c.size(n), measurement_dim=c.size(m), transition=lambda x, t=None, u=None: f0(x, t=t),
                               measurement=lambda x, t=None, u=None: h0(x), system_noise=W, measurement_noise=V,
                               init_distribution=G(m0, P0), dt=dt)
    t0, kw = 0.0, {}
    if c.choice('start time', [False, True]):
        t0 = kw['t_zero'] = c.scalar('t0')
    before = len(c.draws())
    drawn = c.choice('start', ['given', 'drawn']) == 'drawn'
    if not drawn:
        kw['x_zero'] = c.vector('x0', n)
    fr = c.freeze(m0=m0, P0=P0, initial=s.init_state, given=kw.get('x_zero'))

    def first():
        return (taken(c, c.draws()[before], c.size(n)) if drawn else kw['x_zero']), c.vector('no observation yet', m)

    def step(k, z):
        x = f0(z[0], t=t0 + k * dt) + c.at(w, k)
        return x, h0(x) + c.at(v, k)
    X = c.recursion('pair', first, step, (n, m))
    out = c.run(s.simulate, N, **kw)
    if c.returns('returned', out):
        ds = c.draws()[before:]
        c.eq('draws beside the noises', len(ds), int(drawn))
        if drawn and len(ds) == 1:
            law(c, 'initial state', ds[0], m0, P0)
        c.eq('number of pairs', c.len(out.value), N)
        c.eq('draws of the process noise', W.count, N)
        c.eq('draws of the measurement noise', V.count, N)
        for k in c.each('k', N):
            got = c.at(out.value, k)
            c.eq('pair', len(got), 2)
            c.follows('pair', (got[0], got[1]), X, k + 1, part=('state', 'observation'))
    fr.unchanged()
