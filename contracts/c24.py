"""C24  Benchmark measurements equal their documented functions, row by row."""
from epv.registry import contract
from contracts.c23 import ROWS, S, check_rows, points


def measured(c, h, x, k, one, label):
    """h at x, without and with time and control arguments."""
    fr = c.freeze(x=x)
    t, u = c.scalar('t'), c.scalar('u')
    for how, kw in (('', {}), (' with time and control', {'t': t, 'u': u})):
        out = c.run(h, x, **kw)
        if c.returns('returned' + how, out):
            check_rows(c, label + how, out.value, x, k, one)
        fr.unchanged()
    out = c.run(h, x, t, u)
    if c.returns('returned with positional arguments', out):
        check_rows(c, label + ' with positional arguments', out.value, x, k, one)
    fr.unchanged()


def of(c, module, system):
    """The measurement function of the module or of the system."""
    how = c.choice('of', ['module', 'measurement', 'measure'])
    return module if how == 'module' else getattr(system(), how)


@contract('C24', [S + 'UniformNonlinearGrowthModel:h'], cases=[dict(k, n=1) for k in ROWS], trials=10)
def growth(c):
    """x^2 / 20"""
    x, k = points(c, c.dim('n'), c.case)
    h = of(c, c.get(S + 'UniformNonlinearGrowthModel:h'), c.mod('Systems').UniformNonlinearGrowthModel)
    measured(c, h, x, k, lambda z: z * z / 20, 'growth')


@contract('C24', [S + 'L96:h'], cases=[dict(k, n=n) for k in ROWS for n in (1, 4, 'n')], trials=10,
          extra=[{'k': k, 'n': n} for k in (None, 30) for n in (45,)])
def lorenz(c):
    """the component-wise square"""
    n = c.dim('n')
    x, k = points(c, n, c.case)
    mod = c.mod(S + 'L96')

    def system():
        c.np.save('start.npy', c.vector('x0', n))
        return mod.L96(dim=c.size(n), init_cond_path='start.npy')
    h = of(c, mod.h, system)
    measured(c, h, x, k, lambda z: z * z, 'square')


ANY = [dict(r, n=n, s=s) for n in (4, 5) for r in ROWS for s in (1, 's')]


@contract('C24', [S + 'BearingsOnlyTracking:h', S + 'BearingOnlyTrackingTurn:h', S + 'BearingsOnlyTracking:BearingsOnlyTracking.__init__',
                  S + 'BearingOnlyTrackingTurn:BearingsOnlyTrackingTurn.__init__'], cases=ANY, trials=10, soft=True)
def any_number_of_sensors(c):
    """arctan2(y - sensor y, x - sensor x) for every sensor in order, whatever their number"""
    n, s = c.dim('n'), c.dim('s')
    np = c.np
    x, k = points(c, n, c.case)
    turn = c.case['n'] == 5
    mod = c.mod(S + ('BearingOnlyTrackingTurn' if turn else 'BearingsOnlyTracking'))
    cls = mod.BearingsOnlyTrackingTurn if turn else mod.BearingsOnlyTracking
    py = 2 if turn else 1
    sx, sy = c.vector('sx', s), c.vector('sy', s)
    sensors = c.seq(c.size(s), lambda i: mod.Sensor(x=c.at(sx, i), y=c.at(sy, i)))
    kind = c.choice('of', ['module', 'system', 'measure', 'default', 'default system', 'none'])
    if kind in ('default', 'default system', 'none'):
        h = mod.h if kind == 'default' else cls().measurement if kind == 'default system' else cls(sensor_list=None).measurement
        r = 20000 if turn else 10
        sx, sy = np.array([-r, r, -r, r]), np.array([r, r, -r, -r])
    elif kind == 'module':
        h = lambda x, *a, **k: mod.h(x, *a, sensor_list=sensors, **k)
    else:
        system = cls(sensor_list=sensors)
        h = system.measurement if kind == 'system' else system.measure
    column = (lambda v: v) if k is None else (lambda v: v[:, None])
    measured(c, h, x, k, lambda z: np.arctan2(z[py] - column(sy), z[0] - column(sx)), 'bearings')


BO = [dict(r, n=n, s=s) for n in (4, 5) for r in ROWS for s in (1, 2, 3)]


@contract('C24', [S + 'BearingsOnlyTracking:h', S + 'BearingOnlyTrackingTurn:h', S + 'BearingsOnlyTracking:BearingsOnlyTracking.__init__',
                  S + 'BearingOnlyTrackingTurn:BearingsOnlyTrackingTurn.__init__'], cases=BO,
          thorough=[dict(r, n=n, s=s) for n in (4, 5) for r in ROWS for s in (1, 2, 3, 4, 6)], trials=10,
          extra=[dict(r, n=n, s=s) for n in (4, 5) for r in ROWS for s in (4, 5, 8, 13, 40)],
          bounded=lambda case: '%d sensors' % case['s'])
def bearings(c):
    """arctan2(y - sensor y, x - sensor x) for every sensor in order"""
    n, s = c.dim('n'), c.case['s']
    np = c.np
    x, k = points(c, n, c.case)
    turn = c.case['n'] == 5
    mod = c.mod(S + ('BearingOnlyTrackingTurn' if turn else 'BearingsOnlyTracking'))
    cls = mod.BearingsOnlyTrackingTurn if turn else mod.BearingsOnlyTracking
    py = 2 if turn else 1
    kind = c.choice('of', ['module', 'system', 'measure', 'default', 'default system', 'none'])
    sensors = [mod.Sensor(x=c.scalar('sx%d' % i), y=c.scalar('sy%d' % i)) for i in range(s)]
    if kind == 'module':
        h = lambda x, *a, **k: mod.h(x, *a, sensor_list=sensors, **k)
    elif kind in ('system', 'measure'):
        sy = cls(sensor_list=sensors)
        h = sy.measurement if kind == 'system' else sy.measure
    else:
        h = mod.h if kind == 'default' else cls().measurement if kind == 'default system' else cls(sensor_list=None).measurement
        r = 20000 if turn else 10
        sensors = [mod.Sensor(x=a, y=b) for a, b in ((-r, r), (r, r), (-r, -r), (r, -r))]
    measured(c, h, x, k, lambda z: np.array([np.arctan2(z[py] - q.y, z[0] - q.x) for q in sensors]), 'bearings')
