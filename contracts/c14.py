"""C14  Sweeps visit every node in the right order, the requested number of times."""
from epv.registry import contract
from contracts.scores import nll_of

I = 'ExpectationPropagation.Iterations:'
FN = [I + 'kalman_filter', I + 'kalman_smoother', I + 'ep_fwd_back_updates', I + 'ep_update', I + 'ep_iterations',
      'Utils.Metrics:node_metrics', 'Utils.Metrics:rmse', 'Utils.Metrics:nll', 'Utils.Database:insert_experiment_data',
      'Utils.Database:create_experiment_table']
SWEEP = ('kalman_filter', 'kalman_smoother', 'ep_fwd_back_updates', 'ep_update')


def wanted(which, N):
    fm = [(k, i) for i in range(N) for k in ('fwd', 'meas')]
    b = [('back', i) for i in reversed(range(N))]
    return {'kalman_filter': fm, 'kalman_smoother': b, 'ep_fwd_back_updates': fm + b,
            'ep_update': [(k, i) for i in range(N) for k in ('fwd', 'meas', 'back')]}[which]


def recording(c, N, log, n=None, hook=None):
    """The nodes of a chain whose updates only record that they ran."""
    nd = c.mod('ExpectationPropagation.Nodes')
    nodes = nd.build_nodes(N, 1 if n is None else c.size(n)) if N else []

    def rec(kind, i):
        def update(*a, **k):
            log.append((kind, i))
            if hook:
                hook(kind, i)
        return update
    for i, x in enumerate(nodes):
        for kind in ('fwd', 'meas', 'back'):
            setattr(x, kind + '_update', rec(kind, i))
    return nodes


@contract('C14', FN[:4], cases=[{'N': k} for k in (1, 2, 3, 4)], thorough=[{"N": k} for k in range(1, 9)], trials=3,
          extra=[{'N': k} for k in (6, 11, 40)],
          bounded=lambda case: 'chain of %d nodes' % case['N'])
def sweeps(c):
    """each sweep runs exactly the updates of its schedule, in order, and twice over repeats it"""
    N = c.case['N']
    it = c.mod('ExpectationPropagation.Iterations')
    which = c.choice('sweep', list(SWEEP))
    log = []
    nodes = recording(c, N, log)
    before = list(nodes)
    out = c.run(getattr(it, which), nodes)
    if c.returns('the sweep returns', out):
        c.true('updates in order', log == wanted(which, N))
        c.run(getattr(it, which), nodes)
        c.true('the same again', log == 2 * wanted(which, N))
        c.true('the list of nodes is unchanged', len(nodes) == len(before) and all(a is b for a, b in zip(nodes, before)))


def exp_data(c, **kw):
    return c.mod('Utils.Database').Exp_Data(**kw)


@contract('C14', FN, cases=[{'N': N, 'max_iter': k, 'n': d} for d in (1, 'n') for N, k in ((1, 1), (2, 2), (1, 3), (3, 1), (2, 0))],
          extra=[{'N': N, 'max_iter': k, 'n': d} for d in (1, 'n') for N, k in ((9, 2), (2, 12))],
          trials=6, limit=120, bounded=lambda case: 'chain of %d nodes, %d iterations' % (case['N'], case['max_iter']))
def driver(c):
    """max_iter sweeps; after each one with ground truth one committed row, iteration + 1, metrics of the current marginals"""
    N, K, n = c.case['N'], c.case['max_iter'], c.dim('n')
    it, db = c.mod('ExpectationPropagation.Iterations'), c.mod('Utils.Database')
    truth = c.choice('truth', [True, False])
    start = c.choice('start', [0, 4])
    show = c.choice('print', [False, True])
    settled = c.choice('settled', [False, True])
    conn = c.connect()
    db.create_experiment_table(conn.cursor(), table_name='T')
    conn.commit()
    G = c.mod('StateModel').Gaussian
    log, seen, rows, states = [], [], [], {}

    def hook(kind, i):
        if (kind, i) == ('fwd', 0):
            # a sweep begins: everything logged before is committed
            seen.append((len(conn.execute('SELECT Iter FROM T').fetchall()), conn.in_transaction))
        if kind == 'back':
            k = 0 if settled else len(seen)
            if (k, i) not in states:
                states[k, i] = G(c.vector('m%d_%d' % (k, i), n), c.pd('P%d_%d' % (k, i), n))
            nodes[i].marginal = states[k, i]
            if i == 0:
                rows.append([x.marginal for x in nodes])
    nodes = recording(c, N, log, n, hook)
    x_true = [c.vector('x%d' % i, n) for i in range(N)] if truth else None
    data = exp_data(c, Transform='UT', Seed=17, Iter=start, Power=0.5, Damping=0.25, RMSE=0.0, NLL=0.0, Mean=0.0,
                    Variance=0.0, Nodes=[])
    out = c.run(it.ep_iterations, nodes, max_iter=K, x_true=x_true, conn=conn, exp_data=data, table_name='T', print_result=show)
    if not c.returns('the driver returns', out):
        return
    c.true('exactly max_iter sweeps', log == K * wanted('ep_fwd_back_updates', N))
    got = conn.execute('SELECT Transform, Seed, Iter, Power, Damping, RMSE, NLL FROM T ORDER BY rowid').fetchall()
    if not truth:
        c.eq('nothing logged without ground truth', len(got), 0)
        return
    c.eq('one row per sweep', len(got), K)
    c.true('each row committed before the next sweep', all(s == (k, False) for k, s in enumerate(seen)))
    c.true('all rows committed', not conn.in_transaction)
    for k, (row, q) in enumerate(zip(got, rows)):
        c.true('keys of the run', tuple(row[:2]) == ('UT', 17) and tuple(row[3:5]) == (0.5, 0.25))
        c.eq('iteration number', row[2], start + k + 1)
        se = [(s.mean - x) @ (s.mean - x) for s, x in zip(q, x_true)]
        c.eq('RMSE of the current marginals', row[5] * row[5], sum(se) / N)
        c.true('RMSE is not negative', row[5] >= 0)
        nl = [nll_of(c, s.mean, s.cov, x, n) for s, x in zip(q, x_true)]
        c.eq('NLL of the current marginals', row[6], sum(nl) / N)
    c.eq('the given data is unchanged', data.Iter, start)


@contract('C14', FN[:4], cases=[{'which': w} for w in SWEEP], soft=True, trials=4, limit=60)
def sweeps_of_any_length(c):
    """the schedule of each sweep for every number of nodes"""
    it = c.mod('ExpectationPropagation.Iterations')
    which, N = c.case['which'], c.length('N', 0)
    log = c.log()

    def node(i):
        return c.obj(fwd_update=lambda: log.append(('fwd', i)), meas_update=lambda: log.append(('meas', i)),
                     back_update=lambda: log.append(('back', i)))
    nodes = c.seq(N, node)
    out = c.run(getattr(it, which), nodes)
    if not c.returns('the sweep returns', out):
        return
    kinds = {'kalman_filter': ('fwd', 'meas'), 'kalman_smoother': (), 'ep_fwd_back_updates': ('fwd', 'meas'),
             'ep_update': ('fwd', 'meas', 'back')}[which]
    r = len(kinds)
    back = which in ('kalman_smoother', 'ep_fwd_back_updates')
    c.eq('number of updates', c.len(log), (r + (1 if back else 0)) * N)
    for k in c.each('k', N):
        for q in range(r):
            kind, i = c.at(log, r * k + q)
            c.eq('kind of update', kind, kinds[q])
            c.eq('node of the update', i, k)
        if back:
            kind, i = c.at(log, r * N + k)
            c.eq('kind of update', kind, 'back')
            c.eq('node of the backward update', i, N - 1 - k)


@contract('C14', FN[4:5], cases=[{'truth': t, 'print': p} for t in (True, False) for p in (True, False)], soft=True, concrete=False, limit=60)
def driver_for_any_number_of_iterations(c):
    """for every max_iter: sweep, metrics, one row and its commit, in this order, by the contracts of the sweep, the metrics
    and the insertion"""
    it, db = c.mod('ExpectationPropagation.Iterations'), c.mod('Utils.Database')
    K = c.length('max_iter', 0)
    log = c.log()
    one = c.dim(1)
    rm, nl = c.sequence('rmse', K, one), c.sequence('nll', K, one)
    nodes, truth = [c.obj(name='node')], [c.vector('x', one)]
    cursor = c.obj(name='cursor')
    box = c.obj(sweeps=0)
    conn = c.obj(cursor=lambda: cursor, commit=lambda: log.append(('commit', 0)))

    def sweep(xs):
        box.sweeps = box.sweeps + 1
        log.append(('sweep', xs is nodes))

    def metrics(xs, x_true):
        k = box.sweeps - 1
        return (c.at(rm, k), c.at(nl, k)) if xs is nodes and x_true is truth else (None, None)

    def insert(db, table_name, data):
        log.append(('row', db is cursor and table_name == 'T' and data['Transform'] == 'UT' and 'Nodes' not in data, data['Iter'],
                    data['RMSE'], data['NLL'], data['Power'], data['Damping'], data['Seed']))
    it.ep_fwd_back_updates, it.node_metrics, it.insert_experiment_data = sweep, metrics, insert
    start = c.scalar('start', lo=0, isint=True)
    data = exp_data(c, Transform='UT', Seed=17, Iter=start, Power=0.5, Damping=0.25, RMSE=0.0, NLL=0.0, Mean=0.0, Variance=0.0, Nodes=[])
    kw = {'x_true': truth} if c.case['truth'] else {}
    out = c.run(it.ep_iterations, nodes, max_iter=K, conn=conn, exp_data=data, table_name='T', print_result=c.case['print'], **kw)
    if not c.returns('the driver returns', out):
        return
    r = 3 if c.case['truth'] else 1
    c.eq('steps', c.len(log), r * K)
    c.eq('sweeps', box.sweeps, K)
    for k in c.each('k', K):
        kind, own = c.at(log, r * k)
        c.eq('first the sweep', kind, 'sweep')
        c.true('over the nodes', own)
        if r == 3:
            row = c.at(log, r * k + 1)
            c.eq('then a row', row[0], 'row')
            c.true('for this run', row[1])
            c.eq('iteration number', row[2], start + k + 1)
            c.eq('RMSE', row[3], c.at(rm, k))
            c.eq('NLL', row[4], c.at(nl, k))
            c.true('settings', row[5] == 0.5 and row[6] == 0.25 and row[7] == 17)
            c.eq('then the commit', c.at(log, r * k + 2)[0], 'commit')
    c.eq('the given data is unchanged', data.Iter, start)
