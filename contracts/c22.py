"""C22  Noise models and system models are what they were constructed as."""
from epv.registry import contract, NS

D = 'Systems.DynamicSystem:'
FN = [D + 'GaussianNoise.__init__', D + 'GaussianNoise.sample', D + 'NoiseModel.__init__']
MODEL = [D + 'DynamicSystemModel.__init__', D + 'DynamicSystemModel.transition_noise', D + 'DynamicSystemModel.measurement_noise',
         D + 'DynamicSystemModel.measure']
SHIPPED = ['Systems.UniformNonlinearGrowthModel:UniformNonlinearGrowthModel.__init__',
           'Systems.BearingsOnlyTracking:BearingsOnlyTracking.__init__',
           'Systems.BearingOnlyTrackingTurn:BearingsOnlyTrackingTurn.__init__', 'Systems.L96:L96.__init__',
           'Systems.TestDynamics:TestDynamics.__init__', 'Systems.L96:generate_L96_initial_condition']


def noise(c, n, name='N'):
    """A noise model from every combination of given and omitted parameters; returns (model, mean, covariance)."""
    mod = c.mod('Systems.DynamicSystem')
    how = c.choice(name + ' given', ['covariance', 'nothing', 'mean', 'mean and covariance'])
    kw, mean, cov = {}, c.np.zeros(c.size(n)), c.np.eye(c.size(n))
    if 'mean' in how:
        mean = kw['mean'] = c.vector(name + '.mean', n)
    if 'covariance' in how:
        cov = kw['cov'] = c.pd(name + '.cov', n)
    return mod.GaussianNoise(dimension=c.size(n), **kw), mean, cov


@contract('C22', FN, cases=NS, trials=16)
def noise_parameters(c):
    """a noise model keeps its dimension, mean and covariance, with zero mean and identity covariance by default"""
    n = c.dim('n')
    w, mean, cov = noise(c, n)
    fr = c.freeze(mean=mean, cov=cov)
    c.eq('dimension', w.dimension, c.size(n))
    c.eq('mean', w.mean, mean)
    c.eq('covariance', w.cov, cov)
    x = w.sample()
    c.eq('one draw is a vector', c.shape(x), (c.size(n),))
    k = c.size(c.dim('k'))
    c.eq('k draws are k rows', c.shape(w.sample(size=k)), (k, c.size(n)))
    c.eq('k draws are k rows', c.shape(w.sample(k)), (k, c.size(n)))
    c.eq('mean', w.mean, mean)
    c.eq('covariance', w.cov, cov)
    fr.unchanged()
    c.true('only the global generator', not c.events('other-generator', 'seed'))


@contract('C22', FN, cases=NS, trials=4)
def noise_law(c):
    """draws follow the normal distribution with that mean and covariance, with the requested size, afresh each time"""
    n = c.dim('n')
    w, mean, cov = noise(c, n)
    if c.choice('size', ['none', 'k']) == 'none':
        c.law('one draw', lambda: w.sample(), mean, cov)
    else:
        c.law('k draws', lambda k: w.sample(size=k), mean, cov, rows=c.size(c.dim('k')))


@contract('C22', FN, trials=4)
def default_dimension(c):
    """the dimension is one when omitted"""
    w = c.mod('Systems.DynamicSystem').GaussianNoise()
    c.eq('dimension', w.dimension, 1)
    c.eq('mean', w.mean, c.np.zeros(1))
    c.eq('covariance', w.cov, c.np.eye(1))
    c.eq('draw', c.shape(w.sample()), (1,))


@contract('C22', MODEL, cases=[{'n': 1, 'm': 1}, {'n': 'n', 'm': 'm'}, {'n': 'n', 'm': 1}, {'n': 'n', 'm': 'n'}], trials=12)
def model(c):
    """a system model exposes what it was built from, time step 1 when omitted"""
    n, m = c.dim('n'), c.dim('m')
    mod = c.mod('Systems.DynamicSystem')
    Q, _, _ = noise(c, n, 'Q')
    R, _, _ = noise(c, m, 'R')
    G = c.mod('StateModel').Gaussian
    prior = G(c.vector('m0', n), c.pd('P0', n))
    f, h = c.func('f', n, n), c.func('h', n, m)
    kw = {}
    dt = 1
    if c.choice('dt given', [True, False]):
        dt = kw['dt'] = c.scalar('dt', pos=True)
    fr = c.freeze(Q=Q, R=R, prior=prior)
    out = c.run(mod.DynamicSystemModel, system_dim=c.size(n), measurement_dim=c.size(m), transition=f, measurement=h,
                system_noise=Q, measurement_noise=R, init_distribution=prior, **kw)
    if not c.returns('constructed', out):
        return
    s = out.value
    c.eq('state dimension', s.system_dim, c.size(n))
    c.eq('measurement dimension', s.measurement_dim, c.size(m))
    c.true('process noise', s.system_noise is Q and s.transition_noise is Q)
    c.true('measurement noise', s.measurement_noise is R)
    c.true('initial distribution', s.init_state is prior)
    c.eq('time step', s.dt, dt)
    x, t, u = c.vector('x', n), c.scalar('t'), c.scalar('u')
    c.eq('transition', s.transition(x, t=t, u=u), f(x, t=t, u=u))
    c.eq('measurement', s.measurement(x, t=t, u=u), h(x, t=t, u=u))
    c.eq('measure', s.measure(x, t=t, u=u), h(x, t=t, u=u))
    c.eq('measure without time', s.measure(x), h(x))
    fr.unchanged()


@contract('C22', MODEL, cases=[{'n': 1, 'm': 1}, {'n': 'n', 'm': 'm'}, {'n': 'n', 'm': 1}], trials=12)
def rejects(c):
    """noise models of the wrong kind or dimension are rejected"""
    n, m = c.dim('n'), c.dim('m')
    mod = c.mod('Systems.DynamicSystem')
    Q, R = mod.GaussianNoise(dimension=c.size(n), cov=c.pd('Q', n)), mod.GaussianNoise(dimension=c.size(m), cov=c.pd('R', m))
    wrong = c.choice('wrong', ['process kind', 'measurement kind', 'process dimension', 'measurement dimension', 'class'])
    if wrong == 'process kind':
        Q = c.choice('instead', [None, c.pd('Q2', n), 1.0])
    elif wrong == 'measurement kind':
        R = c.choice('instead', [None, c.pd('R2', m), 1.0])
    elif wrong == 'class':
        Q = mod.GaussianNoise
    elif wrong == 'process dimension':
        Q = mod.GaussianNoise(dimension=c.size(n) + 1)
    else:
        R = mod.GaussianNoise(dimension=c.size(m) + 1)
    out = c.run(mod.DynamicSystemModel, system_dim=c.size(n), measurement_dim=c.size(m), transition=None, measurement=None,
                system_noise=Q, measurement_noise=R, init_distribution=None)
    c.raises('rejected', out)


def consistent(c, s, n, m, mean, cov, Q, R, run=True, bearings=None):
    c.eq('state dimension', s.system_dim, n)
    c.eq('measurement dimension', s.measurement_dim, m)
    c.eq('dimension of the process noise', s.transition_noise.dimension, n)
    c.eq('dimension of the measurement noise', s.measurement_noise.dimension, m)
    c.eq('initial dimension', s.init_state.dim, n)
    c.eq('initial mean', s.init_state.mean, mean)
    c.eq('initial covariance', s.init_state.cov, cov)
    c.eq('process noise covariance', s.transition_noise.cov, Q)
    c.eq('measurement noise covariance', s.measurement_noise.cov, R)
    c.eq('process noise mean', s.transition_noise.mean, c.np.zeros(n))
    c.eq('measurement noise mean', s.measurement_noise.mean, c.np.zeros(m))
    x = c.np.ones(n)
    if bearings:
        z = c.vector('state', c.dim(n)) if c.symbolic else c.np.asarray(c.vector('state', c.dim(n))) * 10
        sx, sy, _ = bearings
        want = c.np.reshape(c.np.arctan2(z[2 if n == 5 else 1] - sy, z[0] - sx), (1, m))
        c.eq('measures with its sensors', c.np.atleast_2d(s.measurement(z, t=0.0)), want)
    c.eq('measurement has the measurement dimension', c.shape(c.np.atleast_2d(s.measurement(x, t=0.0)))[1], m)
    if not run:
        return
    c.eq('transition has the state dimension', c.shape(c.np.atleast_2d(s.transition(x, t=0.0)))[1], n)


@contract('C22', SHIPPED, trials=3)
def growth_model(c):
    """the growth model: one state, one measurement, N(0, 5) start, process variance 1, measurement variance 10"""
    s = c.mod('Systems').UniformNonlinearGrowthModel()
    one = c.np.eye(1)
    consistent(c, s, 1, 1, c.np.zeros(1), 5 * one, one, 10 * one)
    c.eq('time step', s.dt, 1)


@contract('C22', SHIPPED, trials=3)
def test_model(c):
    """the noiseless test model"""
    s = c.mod('Systems').TestDynamics()
    one = c.np.eye(1)
    consistent(c, s, 1, 1, c.np.zeros(1), 0.0001 * one, 0 * one, 0 * one, run=not c.symbolic)


def sensors(c, mod, kw):
    """Sensor list: given with k sensors, None or omitted; returns the positions it must use and their number."""
    how = c.choice('sensors', ['omitted', 'none', 'given'])
    r = 20000 if 'Turn' in mod.__name__ else 10
    if how == 'none':
        kw['sensor_list'] = None
    if how != 'given':
        return c.np.array([-r, r, -r, r]), c.np.array([r, r, -r, -r]), 4
    k = c.dim('k')
    sx, sy = c.vector('sx', k), c.vector('sy', k)
    kw['sensor_list'] = c.seq(c.size(k), lambda i: mod.Sensor(x=c.at(sx, i), y=c.at(sy, i)))
    return sx, sy, c.size(k)


def given(c, kw, name, default):
    if c.choice(name + ' given', [True, False]):
        kw[name] = c.scalar(name, pos=True)
        return kw[name]
    return default


BK = [{'k': k} for k in (1, 2, 3, 'k')]
MORE = [{'k': k} for k in (4, 5, 7, 13, 40)]


@contract('C22', SHIPPED, cases=BK, extra=MORE, trials=16, bounded=lambda case: '' if case['k'] in (1, 'k') else '%d sensors' % case['k'])
def bearings_only(c):
    """constant-velocity tracking: one measurement per sensor, noise covariances of the definition for every parameter"""
    mod = c.mod('Systems.BearingsOnlyTracking')
    kw = {}
    q, r, d = given(c, kw, 'Q_sigma', 0.01), given(c, kw, 'R_sigma', 0.001), given(c, kw, 'delta_t', 0.1)
    used = sensors(c, mod, kw)
    m = used[2]
    out = c.run(mod.BearingsOnlyTracking, **kw)
    if not c.returns('constructed', out):
        return
    np = c.np
    a, b = d ** 3 / 3, d ** 2 / 2
    Q = q * np.array([[a, 0, b, 0], [0, a, 0, b], [b, 0, d, 0], [0, b, 0, d]])
    consistent(c, out.value, 4, m, np.array([0.0, 0.0, 1.0, 0.0]), 0.1 * np.eye(4), Q, r * np.eye(m), bearings=used)


@contract('C22', SHIPPED, cases=BK, extra=MORE, trials=16, bounded=lambda case: '' if case['k'] in (1, 'k') else '%d sensors' % case['k'])
def bearings_only_turn(c):
    """coordinated turn: one measurement per sensor, noise covariances of the definition for every parameter"""
    mod = c.mod('Systems.BearingOnlyTrackingTurn')
    np = c.np
    kw = {}
    d = given(c, kw, 'delta_t', 1)
    q0, q1, r = 0.1, 1.75e-4, np.sqrt(10) * 1e-3
    if c.choice('Q_sigma given', [True, False]):
        q0, q1 = c.scalar('q0', pos=True), c.scalar('q1', pos=True)
        kw['Q_sigma'] = [q0, q1]
    used = sensors(c, mod, kw)
    m = used[2]
    R = r * r * np.eye(m)
    how = c.choice('R_sigma', ['omitted', 'one', 'per sensor'])
    if how == 'one':
        r = c.scalar('r', pos=True)
        kw['R_sigma'] = [r]
        R = r * r * np.eye(m)
    elif how == 'per sensor':
        rs = c.vector('r', c.dim(m) if isinstance(m, int) else c.dim('k'))
        kw['R_sigma'] = c.seq(m, lambda i: c.at(rs, i))
        R = np.diag(rs * rs)
    out = c.run(mod.BearingsOnlyTrackingTurn, **kw)
    if not c.returns('constructed', out):
        return
    a, b = d ** 3 / 3, d ** 2 / 2
    Q = np.array([[q0 * a, q0 * b, 0, 0, 0], [q0 * b, q0 * d, 0, 0, 0], [0, 0, q0 * a, q0 * b, 0], [0, 0, q0 * b, q0 * d, 0],
                  [0, 0, 0, 0, d * q1]])
    mean = np.array([1000, 300, 1000, 0, -np.pi * 3.0 / 180])
    cov = np.diag(np.array([100, 10, 100, 10, 1e-4]))
    consistent(c, out.value, 5, m, mean, cov, Q, R, bearings=used)


@contract('C22', SHIPPED, cases=NS, trials=8)
def lorenz(c):
    """Lorenz 96: starts at the stored initial condition with unit covariance, scaled identity noises"""
    n = c.dim('n')
    np = c.np
    mod = c.mod('Systems.L96')
    x0 = c.vector('x0', n)
    path = 'initial_%s.npy' % c.size(n)
    np.save(path, x0)
    kw = {}
    q, r = given(c, kw, 'Q_sigma', 0.1), given(c, kw, 'R_sigma', 1)
    given(c, kw, 'delta_t', 0.05), given(c, kw, 'F', 8)
    out = c.run(mod.L96, dim=c.size(n), init_cond_path=path, **kw)
    if not c.returns('constructed', out):
        return
    one = np.eye(c.size(n))
    consistent(c, out.value, c.size(n), c.size(n), x0, one, q * one, r * one)
    other = c.run(mod.L96, dim=c.size(n) + 1, init_cond_path=path)
    c.raises('an initial condition of another dimension is rejected', other)
