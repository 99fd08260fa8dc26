"""C27  Experiment sweeps run every configuration once with its own settings."""
from epv.registry import contract, NM

F, B = 'Experiments.EP_FullSweep', 'Experiments.EP_Sweep_BearingsOnly'
FN = [F + ':full_sweep', F + ':power_sweep', F + ':select_transform', B + ':full_sweep', B + ':power_sweep', B + ':ep_iterations']
SEL = [F + ':select_transform']


def same_transform(c, label, got, want, f, s):
    a, b = c.run(got, f, s), c.run(want, f, s)
    if c.returns(label + ' runs', a) and b.ok:
        for k, x, y in zip(('mean', 'covariance', 'cross-covariance'), a.value, b.value):
            c.eq('%s: %s' % (label, k), x, y)


@contract('C27', SEL, cases=NM, trials=12)
def selection(c):
    """transition and measurement transforms of the requested kind, dimension and parameters"""
    n, m = c.dim('n'), c.dim('m')
    mod, mm = c.mod(F), c.mod('MomentMatching')
    d = c.size(n)
    s = c.gaussian('s', n)
    f = c.func('f', n, m)
    kind = c.choice('kind', ['UT', 'ut', 'TT', 'tt', 'MCT', 'mct', 'other', 'default'])
    par = {}
    if c.choice('parameters', [False, True]):
        for i in (1, 2):
            for k in ('alpha', 'beta', 'kappa'):
                par[k + str(i)] = c.scalar(k + str(i), pos=True)
    want = dict(alpha1=1, beta1=2, kappa1=3, alpha2=1, beta2=2, kappa2=2)
    if kind.upper() == 'UT' or kind == 'default':
        want.update(par)
    samples = c.choice('samples', [None, 50])
    kw = dict(par)
    if samples:
        kw['samples'] = samples
    if kind != 'default':
        kw['id'] = kind
    out = c.run(mod.select_transform, dim=d, **kw)
    if not c.returns('returned', out):
        return
    c.eq('a pair', len(out.value), 2)
    for i, (name, t) in enumerate(zip(('transition', 'measurement'), out.value), 1):
        if kind.upper() == 'TT':
            same_transform(c, name, t, mm.TaylorTransform(dim=d), f, s)
        elif kind.upper() == 'MCT':
            before = len(c.draws())
            if samples is None and c.symbolic:
                continue
            r = c.run(t, f, s)
            ds = c.draws()[before:]
            c.returns(name + ' runs', r)
            c.eq(name + ': one batch of draws', len(ds), 1)
            if len(ds) == 1:
                c.eq(name + ': number of draws', c.shape(ds[0][2]), (samples or int(5e4), d))
                c.eq(name + ': mean of the state', ds[0][3], s.mean)
                c.eq(name + ': covariance of the state', ds[0][4], s.cov)
                y = f(ds[0][2])
                if r.ok:
                    c.eq(name + ': mean of the outputs', r.value[0], c.np.mean(y, axis=0))
        else:
            same_transform(c, name, t, mm.UnscentedTransform(dim=d, alpha=want['alpha%d' % i], beta=want['beta%d' % i],
                                                             kappa=want['kappa%d' % i]), f, s)
    c.true('two objects', out.value[0] is not out.value[1] or kind.upper() != 'UT')


class Spy(object):
    """Every estimator made while it watches; its projections refuse, so that nothing but the schedule runs."""

    def __init__(self, c, fail=None):
        self.c, self.fail, self.made, self.calls = c, fail, [], []
        E = c.get('MomentMatching.Estimator:Estimator')
        self.E, self.saved = E, {k: getattr(E, k) for k in ('__init__', 'proj_trans', 'proj_meas', 'proj_back')}
        spy = self
        init = self.saved['__init__']

        def __init__(me, *a, **k):
            init(me, *a, **k)
            spy.made.append(me)
            if fail is not None and (me.power, me.damping) == fail:
                raise c.LinAlgError('singular')

        def refuse(kind):
            def proj(me, func, state, *a, **k):
                spy.calls.append((kind, me, func, state, a, k))
                raise c.LinAlgError('refused')
            return proj
        E.__init__ = __init__
        for k in ('proj_trans', 'proj_meas', 'proj_back'):
            setattr(E, k, refuse(k[5:]))

    def restore(self):
        for k, v in self.saved.items():
            setattr(self.E, k, v)

    def of(self, est, kind):
        return [k for k in self.calls if k[1] is est and k[0] == kind]


def world(c, mod, n, m, N, iters, bott):
    D = c.mod('Systems.DynamicSystem')
    db = c.mod('Utils.Database')
    G = c.mod('StateModel').Gaussian
    # the functions only have to be told apart: the projections do not run
    f, h = c.func('f', n, n, style='row1'), c.func('h', n, m, style='row1')
    Q, R = c.pd('Q', n), c.pd('R', m)
    prior = G(c.vector('m0', n), c.pd('P0', n))
    s = D.DynamicSystemModel(system_dim=c.size(n), measurement_dim=c.size(m), transition=f, measurement=h,
                             system_noise=D.GaussianNoise(dimension=c.size(n), cov=Q),
                             measurement_noise=D.GaussianNoise(dimension=c.size(m), cov=R), init_distribution=prior, dt=1)
    log = []
    runs = s.simulate

    def simulate(*a, **k):
        ev = [e for e in c.events('seed', 'draw')]
        last = ev[-1] if ev else None
        data = runs(*a, **k)
        log.append((last, [(c.np.array(x), c.np.array(y)) for x, y in data]))
        return data
    s.simulate = simulate
    conn = db.open_database(':memory:')
    cur = conn.cursor()
    db.create_dynamics_table(cur, 'SIM')
    mod.create_experiment_table(cur, table_name='EXP')
    conn.commit()
    cfg = c.mod(F).Config(con=conn, system=s, timesteps=N, sys_dim=c.size(n), num_iter=iters, dyn_table_name='SIM', exp_table_name='EXP')
    return cfg, conn, s, log, Q, R, prior, f, h


POWERS, DAMPS = [1.0, 0.3], [1.0, 0.8]


def insert(c, mod, conn, bott, tr, seed, it, p, d, value):
    kw = {}
    if bott:
        kw['Quantity'] = 'position'
    else:
        kw.update(Mean=0.0, Variance=0.0)
    q = "INSERT INTO EXP (Transform, Seed, Iter, Power, Damping, RMSE, NLL{}) VALUES (?, ?, ?, ?, ?, ?, ?{})"
    q = q.format(', Quantity', ", 'position'") if bott else q.format('', '')
    conn.execute(q, (tr, seed, it, p, d, value, value))
    conn.commit()


CASES = [{'module': k, 'N': N, 'it': it, 'n': 5 if k == 'B' else n, 'm': 'm' if n != 1 else 1}
         for k in 'FB' for N, it in ((2, 1), (1, 2)) for n in ((1, 'n') if k == 'F' else ('n',))]


@contract('C27', FN, cases=CASES, trials=6, limit=200,
          bounded=lambda case: '2 seeds, 3 transforms, 2 powers, 2 dampings, %d time steps, %d iterations' % (case['N'], case['it']))
def sweep(c):
    """every configuration once, on the data of its seed, with its own settings and keys; stored ones are skipped unless
    override; one that fails with a linear-algebra error does not stop the others"""
    bott = c.case['module'] == 'B'
    mod = c.mod(B if bott else F)
    N, iters, n, m = c.case['N'], c.case['it'], c.dim('n'), c.dim('m')
    seeds, kinds = [101, 7], ['TT', 'UT', 'MCT']
    cfg, conn, sysm, log, Q, R, prior, f, h = world(c, mod, n, m, N, iters, bott)
    override = c.choice('override', [False, True])
    have = c.choice('stored', ['nothing', 'one result', 'an unfinished run', 'other keys'])
    failing = c.choice('failing', [None, (0.3, 1.0)])
    skipped = set()
    if have == 'one result':
        insert(c, mod, conn, bott, 'UT', 7, iters, 0.3, 0.8, 0.5)
        if not override:
            skipped.add((7, 'UT', 0.3, 0.8))
    elif have == 'an unfinished run':
        insert(c, mod, conn, bott, 'UT', 7, iters - 1, 0.3, 0.8, 0.5)
    elif have == 'other keys':
        for tr, sd, it, p, d in (('UX', 7, iters, 0.3, 0.8), ('UT', 8, iters, 0.3, 0.8), ('UT', 7, iters + 1, 0.3, 0.8),
                                 ('UT', 7, iters, 0.4, 0.8), ('UT', 7, iters, 0.3, 0.7)):
            insert(c, mod, conn, bott, tr, sd, it, p, d, 0.5)
    before = conn.execute('SELECT Transform, Seed, Iter, Power, Damping, RMSE FROM EXP').fetchall()
    fr = c.freeze(Q=Q, R=R, prior=prior, seeds=seeds, kinds=kinds, powers=POWERS, dampings=DAMPS)
    spy = Spy(c, failing)
    try:
        args = (cfg, list(seeds), list(kinds), list(POWERS), list(DAMPS))
        out = c.run(mod.full_sweep, *(args + ((True,) if override else ())))
    finally:
        spy.restore()
    if not c.returns('the sweep returns', out):
        return
    fr.unchanged()
    want = [(sd, tr, p, d) for sd in seeds for tr in kinds for p in POWERS for d in DAMPS if (sd, tr, p, d) not in skipped]
    c.eq('data simulated once per seed', len(log), len(seeds))
    if len(log) != len(seeds):
        return
    for sd, (last, data) in zip(seeds, log):
        c.true('simulated right after seeding', last is not None and last[0] == 'seed' and int(last[1]) == sd)
        rows = conn.execute('SELECT t, X, Y FROM SIM WHERE Seed = %d ORDER BY t' % sd).fetchall()
        c.eq('trajectory stored', len(rows), N)
        for i, (row, (x, y)) in enumerate(zip(rows, data)):
            c.true('step index', row[0] == i)
            c.eq('stored state', row[1], x)
            c.eq('stored observation', row[2], y)
    c.eq('one estimator per configuration', len(spy.made), len(want))
    if len(spy.made) != len(want):
        return
    G = c.mod('StateModel').Gaussian
    k = c.size(n)
    one = G(c.np.ones(k) / 2, c.np.eye(k) * 4) if bott else c.gaussian('one', n)
    # the transforms are told apart on an arbitrary function with one output
    g = gm = c.func('g', n, c.dim(1))
    data = {sd: l[1] for sd, l in zip(seeds, log)}
    for est, (sd, tr, p, d) in zip(spy.made, want):
        c.eq('power', est.power, p)
        c.eq('damping', est.damping, d)
        c.eq('process noise of the system', est.transition_noise, Q)
        c.eq('measurement noise of the system', est.measurement_noise, R)
        if tr != 'MCT':
            for label, got, ref, fn in zip(('transition', 'measurement'), (est.trans_map, est.meas_map),
                                           c.mod(F).select_transform(id=tr, dim=c.size(n)), (g, gm)):
                same_transform(c, label + ' transform', got, ref, fn, one)
        else:
            k = len(c.draws())
            c.run(est.trans_map, g, one)
            c.run(est.meas_map, gm, one)
            c.true('10000 draws', all(c.shape(e[2])[0] == 10000 for e in c.draws()[k:]) and len(c.draws()) == k + 2)
        if (p, d) == failing:
            c.eq('a failing configuration does nothing', len([k for k in spy.calls if k[1] is est]), 0)
            continue
        fw, ms, bk = [spy.of(est, k) for k in ('trans', 'meas', 'back')]
        # with every projection refused, each sweep tries N forward, N measurement and N - 1 backward projections
        c.eq('forward updates', len(fw), N * iters)
        c.eq('measurement updates', len(ms), N * iters)
        c.eq('backward updates', len(bk), (N - 1) * iters)
        if len(ms) == N * iters and len(fw) == N * iters:
            x = c.vector('point', n)
            for i in range(N * iters):
                kw = ms[i][5]
                y = ms[i][4][0] if ms[i][4] else kw.get('meas')
                c.eq('measurement of the seed', c.np.atleast_1d(y), c.np.reshape(data[sd][i % N][1], (c.size(m),)))
                c.eq('measurement function', ms[i][2](x), h(x))
                c.eq('transition at its time', fw[i][2](x), f(x, t=float(i % N), u=0.0))
            c.eq('prior', fw[0][3].mean, prior.mean)
            c.eq('prior covariance', fw[0][3].cov, prior.cov)
    for a, b in zip(spy.made, spy.made[1:]):
        ia = [i for i, k in enumerate(spy.calls) if k[1] is a]
        ib = [i for i, k in enumerate(spy.calls) if k[1] is b]
        c.true('one after the other', not ia or not ib or max(ia) < min(ib))
    # ---- the log
    got = conn.execute('SELECT Transform, Seed, Iter, Power, Damping, RMSE{} FROM EXP ORDER BY rowid'.format(', Quantity' if bott else '')).fetchall()
    c.true('stored rows are kept', [tuple(r[:5]) for r in got[:len(before)]] == [tuple(r[:5]) for r in before])
    for r, w in zip(got, before):
        c.eq('stored scores are kept', r[5], w[5])
    there = {tuple(r[:5]) + (('position',) if bott else ()) for r in before}
    rows = []
    for sd, tr, p, d in want:
        if (p, d) == failing:
            continue
        for i in range(1, iters + 1):
            for q in (('position', 'velocity', 'angle') if bott else (None,)):
                key = (tr, sd, i, p, d) + ((q,) if bott else ())
                if key not in there:
                    rows.append(key)
    new = [tuple(r[:5]) + ((r[6],) if bott else ()) for r in got[len(before):]]
    c.true('logged under exactly its keys', new == rows)
    if new == rows:
        parts = {'position': [0, 2], 'velocity': [1, 3], 'angle': [4]}
        for r in got[len(before):]:
            xs = [c.np.reshape(x, (c.size(n),)) for x, _ in data[r[1]]]
            if bott:
                xs = [c.np.array([x[i] for i in parts[r[6]]]) for x in xs]
            c.eq('scored against the truth of the seed', r[5] * r[5], sum(x @ x for x in xs) / N)
    c.true('committed', not conn.in_transaction)


@contract('C27', FN + [F + ':main', B + ':main'], cases=[{'module': 'F', 'system': k} for k in ('UNGM', 'BOT', 'BOTT')] + [{'module': 'B', 'system': 'BOTT'}],
          symbolic=False, trials=2, bounded='the command line run with stubbed sweeps')
def command(c):
    """the command line sweeps the chosen system with matching dimensions, its own tables and the given options"""
    mod = c.mod(B if c.case['module'] == 'B' else F)
    import os
    seen = []
    saved = mod.full_sweep
    mod.full_sweep = lambda *a, **k: seen.append((a, k))
    path = os.path.abspath('sweep.db')
    kinds, seeds, it, ov = ('UT',), (3, 4), 6, c.choice('override', [True, False])
    kw = dict(logdir=path, seeds=seeds, trans_types=kinds, num_iter=it, override=ov)
    if c.case['module'] == 'F':
        kw['dynamic_system'] = c.case['system']
    try:
        out = c.run(mod.main.callback, **kw)
    finally:
        mod.full_sweep = saved
    if not c.returns('returned', out):
        return
    c.eq('one sweep', len(seen), 1)
    if len(seen) != 1:
        return
    a, k = seen[0]
    cfg, sd, tr, pw, dm = a[:5]
    c.true('options', tuple(sd) == seeds and tuple(tr) == kinds and cfg.num_iter == it and (k.get('override', a[5] if len(a) > 5 else False) == ov))
    c.eq('dimension of the system', cfg.sys_dim, cfg.system.system_dim)
    c.true('system', {'UNGM': 'UniformNonlinearGrowthModel', 'BOT': 'BearingsOnlyTracking',
                      'BOTT': 'BearingsOnlyTrackingTurn'}[c.case['system']] == type(cfg.system).__name__)
    c.true('powers and dampings in (0, 1]', all(0 < x <= 1 for x in list(pw) + list(dm)))
    names = {r[0] for r in cfg.con.execute("SELECT name FROM sqlite_master WHERE type = 'table'").fetchall()}
    c.true('tables exist', {cfg.dyn_table_name, cfg.exp_table_name} <= names)
    cfg.con.close()
    os.remove(path)
