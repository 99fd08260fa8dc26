"""C26  Experiment storage is lossless and first-write-wins."""
from epv.registry import contract, NS

U = 'Utils.Database:'
FN = [U + k for k in ('adapt_array', 'convert_array', 'adapt_list', 'convert_list', 'open_database', 'create_dynamics_table',
                      'insert_dynamics_data', 'create_experiment_table', 'insert_experiment_data')]
BO = 'Experiments.EP_Sweep_BearingsOnly:'
FB = [BO + 'create_experiment_table', BO + 'insert_experiment_data']


def count(n):
    return lambda case: '%d %s' % (case.get('N', 1), n)


def rows_of(c, N, n, m, tag, shape):
    def one(x, d):
        return c.np.reshape(x, (1, c.size(d))) if shape == 'rows' else x
    return [(one(c.vector('x%s%d' % (tag, i), n), n), one(c.vector('y%s%d' % (tag, i), m), m)) for i in range(N)]


def trajectory(conn, table, seed):
    return conn.execute('SELECT Seed, t, X, Y FROM {} WHERE Seed = {} ORDER BY t'.format(table, seed)).fetchall()


def stored(c, got, data, seed, tag=''):
    c.eq(tag + 'one row per time step', len(got), len(data))
    for i, (row, (x, y)) in enumerate(zip(got, data)):
        c.true(tag + 'under the seed', row[0] == seed)
        c.true(tag + 'the step index as time', row[1] == i)
        for label, a, b in (('state', row[2], x), ('observation', row[3], y)):
            c.true('%sstored %s is an array' % (tag, label), isinstance(a, c.np.ndarray))
            c.eq('%sstored %s, value and shape' % (tag, label), a, b)
            if not c.symbolic:
                c.true('%sstored %s, type' % (tag, label), a.dtype == b.dtype)


def database(c):
    db = c.mod('Utils.Database')
    return db, db.open_database(':memory:')


@contract('C26', FN, cases=[dict(N=k, n=n, m=m) for k in (0, 1, 3) for n, m in ((1, 1), ('n', 'm'))], trials=8, bounded=count('time steps'))
def trajectories(c):
    """one row per time step under the seed with the step index as time; a second write changes nothing"""
    n, m, N = c.dim('n'), c.dim('m'), c.case['N']
    db, conn = database(c)
    cur = conn.cursor()
    name = c.choice('table', [None, 'Other_SIM'])
    kw = {'name': name} if name else {}
    table = name or 'UNGM'
    db.create_dynamics_table(cur, **kw)
    shape = c.choice('shape', ['vectors', 'rows'])
    data = rows_of(c, N, n, m, 'a', shape)
    fr = c.freeze(data=data)
    c.returns('insert', c.run(db.insert_dynamics_data, cur, table, data, 7))
    fr.unchanged()
    conn.commit()
    stored(c, trajectory(conn, table, 7), data, 7)
    more = rows_of(c, N + 1, n, m, 'b', shape)
    c.returns('another seed', c.run(db.insert_dynamics_data, cur, table, more, 8))
    stored(c, trajectory(conn, table, 8), more, 8, 'another seed: ')
    stored(c, trajectory(conn, table, 7), data, 7, 'after another seed: ')
    c.returns('writing again raises nothing', c.run(db.insert_dynamics_data, cur, table, more, 7))
    stored(c, trajectory(conn, table, 7), data + more[N:], 7, 'written again: ')
    c.returns('creating the table again', c.run(db.create_dynamics_table, cur, **kw))
    stored(c, trajectory(conn, table, 7), data + more[N:], 7, 'table created again: ')
    stored(c, trajectory(conn, table, 8), more, 8, 'table created again: ')
    c.true('no other row', conn.execute('SELECT COUNT(*) FROM {}'.format(table)).fetchone()[0] == 2 * (N + 1))


KEYS = ('Transform', 'Seed', 'Iter', 'Power', 'Damping')
OTHER = {'Transform': 'TT', 'Seed': 4, 'Iter': 9, 'Power': 0.7, 'Damping': 0.3, 'Quantity': 'velocity'}
COLUMNS = 'Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance'


def result(c, db, i, **key):
    k = dict(Transform='UT', Seed=3, Iter=5, Power=0.1 + 0.2, Damping=0.8)
    k.update(key)
    n = c.dim('n')
    d = db.Exp_Data(RMSE=c.scalar('rmse%d' % i, nonneg=True), NLL=c.scalar('nll%d' % i),
                    Mean=[c.vector('mean%d_%d' % (i, j), n) for j in range(2)], Variance=[c.pd('cov%d' % i, n)],
                    Nodes=[], **k)._asdict()
    del d['Nodes']
    return d


def row_is(c, row, want, tag):
    c.true(tag + 'transform', row[0] == want['Transform'])
    for j, k in enumerate(('Seed', 'Iter', 'Power', 'Damping'), 1):
        c.true(tag + 'under its own column: ' + k, row[j] == want[k])
    c.eq(tag + 'under its own column: RMSE', row[5], want['RMSE'])
    c.eq(tag + 'under its own column: NLL', row[6], want['NLL'])
    for j, k in ((7, 'Mean'), (8, 'Variance')):
        c.true(tag + 'a list: ' + k, isinstance(row[j], list))
        c.eq(tag + 'length: ' + k, len(row[j]), len(want[k]))
        for a, b in zip(row[j], want[k]):
            c.eq(tag + 'entry of ' + k, a, b)


@contract('C26', FN, cases=NS, trials=10)
def results(c):
    """every value under its own column; the key is transform, seed, iteration, power and damping; the first write wins"""
    db, conn = database(c)
    cur = conn.cursor()
    name = c.choice('table', [None, 'Other_EXP'])
    kw = {'table_name': name} if name else {}
    table = name or 'UNGM_EXP'
    db.create_experiment_table(cur, **kw)
    first = result(c, db, 0)
    fr = c.freeze(data=first)
    c.returns('insert', c.run(db.insert_experiment_data, cur, table, first))
    fr.unchanged()
    conn.commit()
    want = [first]

    def check(tag):
        got = conn.execute('SELECT {} FROM {} ORDER BY rowid'.format(COLUMNS, table)).fetchall()
        c.eq(tag + 'number of rows', len(got), len(want))
        for row, w in zip(got, want):
            row_is(c, row, w, tag)
    check('')
    again = result(c, db, 1)
    c.returns('writing the key again raises nothing', c.run(db.insert_experiment_data, cur, table, again))
    check('written again: ')
    which = c.choice('key', list(KEYS))
    other = result(c, db, 2, **{which: OTHER[which]})
    c.returns('another key', c.run(db.insert_experiment_data, cur, table, other))
    want.append(other)
    check('another %s: ' % which)
    c.returns('creating the table again', c.run(db.create_experiment_table, cur, **kw))
    check('table created again: ')


@contract('C26', FB, trials=10)
def bearings_results(c):
    """the bearings-only sweep's table: the key also has the quantity"""
    db = c.mod('Experiments.EP_Sweep_BearingsOnly')
    _, conn = database(c)
    cur = conn.cursor()
    name = c.choice('table', [None, 'Other_EXP'])
    kw = {'table_name': name} if name else {}
    table = name or 'BOTT_EXP'
    db.create_experiment_table(cur, **kw)

    def data(i, **key):
        k = dict(Transform='UT', Quantity='position', Seed=3, Iter=5, Power=0.1 + 0.2, Damping=0.8)
        k.update(key)
        return db.Exp_Data(RMSE=c.scalar('rmse%d' % i, nonneg=True), NLL=c.scalar('nll%d' % i), **k)._asdict()
    first = data(0)
    fr = c.freeze(data=first)
    c.returns('insert', c.run(db.insert_experiment_data, cur, table, first))
    fr.unchanged()
    c.returns('writing the key again raises nothing', c.run(db.insert_experiment_data, cur, table, data(1)))
    which = c.choice('key', list(KEYS) + ['Quantity'])
    other = data(2, **{which: OTHER[which]})
    c.returns('another key', c.run(db.insert_experiment_data, cur, table, other))
    c.returns('creating the table again', c.run(db.create_experiment_table, cur, **kw))
    got = conn.execute('SELECT Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL FROM {} ORDER BY rowid'.format(table)).fetchall()
    c.eq('number of rows', len(got), 2)
    for row, w in zip(got, (first, other)):
        for j, k in enumerate(('Transform', 'Quantity', 'Seed', 'Iter', 'Power', 'Damping')):
            c.true('under its own column: ' + k, row[j] == w[k])
        c.eq('under its own column: RMSE', row[6], w['RMSE'])
        c.eq('under its own column: NLL', row[7], w['NLL'])


@contract('C26', FN, cases=NS, trials=8)
def round_trip(c):
    """arrays and lists read back equal, with the same shape and type"""
    n = c.dim('n')
    db, conn = database(c)
    np = c.np
    conn.execute('CREATE TABLE A (k INT, a NParray, b Nodes, p pickle)')
    x = c.vector('x', n)
    arrays = [x, np.reshape(x, (1, c.size(n))), c.matrix('X', n, c.dim('m')), c.matrix('X2', n, c.dim('m')).T]
    if not c.symbolic:
        arrays += [np.arange(6).reshape(2, 3), np.array([True, False]), np.zeros((0, 3)), x.astype('float32'), np.array(['a', 'bc']),
                   np.asfortranarray(np.ones((3, 2))), x[::-1], np.array(3.0), np.array(7), np.zeros((2, 1, 3))]
    fr = c.freeze(arrays=arrays)
    for i, a in enumerate(arrays):
        lst = [a, 'text', 1, 2.5, None, [a]]
        c.returns('store', c.run(conn.execute, 'INSERT INTO A VALUES (?, ?, ?, ?)', (i, a, lst, lst)))
    for i, a in enumerate(arrays):
        k, r, b, p = conn.execute('SELECT k, a, b, p FROM A WHERE k = %d' % i).fetchone()
        for label, g in (('array', r), ('array in a list', b[0]), ('array in a pickled list', p[0])):
            c.true(label + ' has the same type', isinstance(g, np.ndarray) and (c.symbolic or g.dtype == a.dtype))
            if c.symbolic or a.dtype.kind in 'fi':
                c.eq(label, g, a)
            else:
                c.true(label, g.shape == a.shape and bool((g == a).all()))
        for l in (b, p):
            c.true('list', isinstance(l, list) and len(l) == 6 and l[1:5] == ['text', 1, 2.5, None] and isinstance(l[5], list))
    fr.unchanged()


@contract('C26', FN, cases=NS, trials=6)
def persistent(c):
    """committed rows are there when the database is opened again; the default file is temp.db in the current directory"""
    n = c.dim('n')
    db = c.mod('Utils.Database')
    import os
    path = c.choice('path', ['given.db', None])
    real = not c.symbolic
    if real:
        for f in ('given.db', 'temp.db'):
            if os.path.exists(f):
                os.remove(f)
    args = () if path is None else (path,)
    conn = db.open_database(*args)
    db.create_dynamics_table(conn.cursor(), 'S')
    data = rows_of(c, 2, n, n, 'a', 'vectors')
    db.insert_dynamics_data(conn.cursor(), 'S', data, 1)
    conn.commit()
    conn.close()
    if real and path is None:
        c.true('default file', os.path.exists('temp.db'))
    conn = db.open_database(*args)
    db.create_dynamics_table(conn.cursor(), 'S')
    stored(c, trajectory(conn, 'S', 1), data, 1)
    conn.close()
    if real:
        for f in ('given.db', 'temp.db'):
            if os.path.exists(f):
                os.remove(f)
