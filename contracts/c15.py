"""C15  The factor graph is the chain of the time series."""
from epv.registry import contract
from contracts.chain import FACTORS, Proj

N_ = 'ExpectationPropagation.Nodes:'
FN = [N_ + 'build_nodes', N_ + 'node_system', N_ + 'node_estimator', N_ + 'Node.__init__',
      'StateModel.Gaussian:Gaussian.as_factor', 'StateModel.Gaussian:Gaussian.as_marginal']
LEN = [{'N': k, 'n': d} for k in (1, 2, 3, 4) for d in (1, 'n')]
LONG = [{'N': k, 'n': d} for k in (1, 2, 3, 4, 5, 8) for d in (1, 'n')]
LONGER = [{'N': k, 'n': d} for k in (6, 11) for d in (1, 'n')]


def bound(case):
    return 'chain of %d nodes' % case['N']


def linked(c, nodes, N):
    """The nodes form one chain in order."""
    c.eq('number of nodes', len(nodes), N)
    c.true('distinct nodes', len({id(x) for x in nodes}) == N)
    for i, x in enumerate(nodes):
        c.eq('index', x.index, i)
        c.true('predecessor', x.prev_node is (nodes[i - 1] if i > 0 else None))
        c.true('successor', x.next_node is (nodes[i + 1] if i + 1 < N else None))


def fresh_state(c, nodes, n):
    G = c.mod('StateModel').Gaussian
    flat, unit = G.as_marginal(c.size(n)), G.as_factor(c.size(n))
    for x in nodes:
        c.eq('dimension', x.dim, c.size(n))
        c.eq('flat marginal, mean', x.marginal.mean, flat.mean)
        c.eq('flat marginal, covariance', x.marginal.cov, flat.cov)
        for f in FACTORS:
            c.eq('unit factor, precision', getattr(x, f).precision, unit.precision)
            c.eq('unit factor, shift', getattr(x, f).shift, unit.shift)
    owned = [getattr(x, k) for x in nodes for k in ('marginal',) + FACTORS]
    c.true('no state is shared between nodes', len({id(o) for o in owned}) == len(owned))


def unshared(c, nodes):
    """Changing one node in place shows in no other node."""
    for k in ('marginal',) + FACTORS:
        for i, x in enumerate(nodes):
            fr = c.freeze(**{'n%d_%d_%s' % (j, a, b): getattr(getattr(y, b), q) for j, y in enumerate(nodes) if j != i
                             for b in ('marginal',) + FACTORS for a, q in enumerate(('precision', 'shift'))})
            for q in ('precision', 'shift'):
                v = getattr(getattr(x, k), q)
                v[...] = v + 1
            fr.unchanged('after an in-place change elsewhere')


@contract('C15', FN, cases=LEN, thorough=LONG, extra=LONGER, bounded=bound, trials=4)
def built(c):
    """N distinct nodes, linked in a chain, flat marginals and unit factors of the dimension that no two share"""
    n, N = c.dim('n'), c.case['N']
    nd = c.mod('ExpectationPropagation.Nodes')
    kw = c.choice('call', [False, True])
    nodes = nd.build_nodes(N=N, dim=c.size(n)) if kw else nd.build_nodes(N, c.size(n))
    linked(c, nodes, N)
    fresh_state(c, nodes, n)
    unshared(c, nodes)
    other = nd.build_nodes(N, c.size(n))
    c.true('another chain has its own nodes', not ({id(x) for x in nodes} & {id(x) for x in other}))


def model(c, n, m, dt, log, kind):
    def transition(x, t=None, u=None, **kw):
        log.append(('f', x, t, u, kw))
        return ('f', len(log))

    def measurement(x, t=None, u=None):
        log.append(('h', x, t, u, {}))
        return ('h', len(log))
    G = c.mod('StateModel').Gaussian
    prior = G(c.vector('m0', n), c.pd('P0', n))
    if kind == 'stub':
        return c.obj(transition=transition, measurement=measurement, init_state=prior, dt=dt), transition, measurement, prior
    D = c.mod('Systems.DynamicSystem')
    Q, R = c.pd('Q', n), c.pd('R', m)
    s = D.DynamicSystemModel(system_dim=c.size(n), measurement_dim=c.size(m), transition=transition, measurement=measurement,
                             system_noise=D.GaussianNoise(dimension=c.size(n), cov=Q),
                             measurement_noise=D.GaussianNoise(dimension=c.size(m), cov=R), init_distribution=prior, dt=dt)
    return s, transition, measurement, prior


@contract('C15', FN, cases=[dict(k, m=m) for k in LEN for m in (1, 'm')], thorough=[dict(k, m=m) for k in LONG for m in (1, 'm')],
          extra=[dict(k, m=m) for k in LONGER for m in (1, 'm')],
          bounded=bound, trials=4)
def with_system(c):
    """node i gets measurement i, the measurement function, the transition at time i dt with zero input; the prior goes
    to the first node only"""
    n, m, N = c.dim('n'), c.dim('m'), c.case['N']
    nd = c.mod('ExpectationPropagation.Nodes')
    log = []
    dt = c.scalar('dt', pos=True)
    given = c.choice('arguments', ['default', 'given'])
    sys_, f, h, prior = model(c, n, m, dt, log, c.choice('system', ['stub', 'real']))
    row = c.choice('rows', [False, True])
    ys = [c.vector('y%d' % i, m) for i in range(N)]
    meas = [c.np.reshape(y, (1, c.size(m))) for y in ys] if row else list(ys)
    args = [{'t': c.scalar('t%d' % i), 'u': c.scalar('u%d' % i)} for i in range(N)] if given == 'given' else None
    nodes = nd.build_nodes(N, c.size(n))
    fr = c.freeze(measurements=meas, prior=prior, **({'arguments': args} if args else {}))
    got = c.run(nd.node_system, nodes, sys_, meas, args) if args else c.run(nd.node_system, nodes, sys_, meas)
    if not c.returns('attached', got):
        return
    c.true('the same nodes, in order', len(got.value) == N and all(a is b for a, b in zip(got.value, nodes)))
    linked(c, nodes, N)
    fresh_state(c, nodes, n)
    for i, x in enumerate(nodes):
        c.eq('measurement', c.np.atleast_1d(x.meas), ys[i])
        del log[:]
        p = ('point', i)
        r = x.trans_func(p)
        c.true('transition of the system', len(log) == 1 and log[0][0] == 'f' and r == ('f', 1))
        if len(log) == 1 and log[0][0] == 'f':
            c.true('transition of the point', log[0][1] is p)
            if args:
                c.eq('supplied time', log[0][2], args[i]['t'])
                c.eq('supplied input', log[0][3], args[i]['u'])
            else:
                c.eq('time i dt', log[0][2], i * dt)
                c.eq('zero input', log[0][3], 0.0)
            c.true('no other argument', not log[0][4])
        del log[:]
        r = x.meas_func(p)
        c.true('measurement function of the system', len(log) == 1 and log[0][:2] == ('h', p) and r == ('h', 1))
        c.true('prior at the first node only', (i == 0) == (getattr(x, 'prior', None) is not None))
    q = getattr(nodes[0], 'prior', None)
    if q is not None:
        c.eq('prior mean', q.mean, prior.mean)
        c.eq('prior covariance', q.cov, prior.cov)
    fr.unchanged()


@contract('C15', FN, cases=LEN, thorough=LONG, extra=LONGER, bounded=bound, trials=4)
def with_estimator(c):
    """every node gets the projections, power and damping of the estimator"""
    n, N = c.dim('n'), c.case['N']
    nd = c.mod('ExpectationPropagation.Nodes')
    S = c.gaussian('S', n)
    way = c.choice('way', ['build_nodes', 'node_estimator'])
    kind = c.choice('estimator', ['stub', 'real', 'no power'])
    p, d = c.unit('power'), c.unit('damping')
    T, M, B = [Proj(None, c.LinAlgError('refused')) for _ in range(3)]
    if kind == 'stub':
        est = c.obj(proj_trans=T, proj_meas=M, proj_back=B, power=p, damping=d)
    elif kind == 'no power':
        est, p, d = c.obj(proj_trans=T, proj_meas=M, proj_back=B), 1, 1
    else:
        E = c.get('MomentMatching.Estimator:Estimator')
        t = c.transform('T', n, n)
        est = E(t, t, c.pd('Q', n), c.pd('R', n), p, d)
        est.proj_trans, est.proj_meas, est.proj_back = T, M, B
    if way == 'build_nodes':
        nodes = nd.build_nodes(N, c.size(n), estimator=est)
    else:
        old = nd.build_nodes(N, c.size(n))
        nodes = nd.node_estimator(old, est)
        c.true('the same nodes, in order', len(nodes) == N and all(a is b for a, b in zip(nodes, old)))
    linked(c, nodes, N)
    fresh_state(c, nodes, n)
    for i, x in enumerate(nodes):
        c.eq('power', x.power, p)
        c.eq('damping', x.damping, d)
        x.trans_func, x.meas_func, x.meas = ('f', i), ('h', i), c.vector('y', n)
        x.prior = S
        x.marginal = c.gaussian('q%d' % i, n)
    for i, x in enumerate(nodes):
        for upd, proj, first in (('meas', M, ('h', i)), ('fwd', T, ('f', i)), ('back', B, ('f', i + 1))):
            del T.calls[:], M.calls[:], B.calls[:]
            out = c.run(getattr(x, upd + '_update'))
            want = 0 if (upd == 'back' and i == N - 1) else 1
            c.returns('update runs', out)
            c.true('%s update uses its projection' % upd, [len(k.calls) for k in (T, M, B)] == [want if k is proj else 0 for k in (T, M, B)])
            if want and len(proj.calls) == 1:
                a, k = proj.calls[0]
                c.true('on this node', (a[0] if a else k.get('func')) == first)


ANY = [{'n': 1, 'm': 1}, {'n': 'n', 'm': 'm'}]


def linked_at(c, nodes, N, j):
    """linked() at one position of any number of nodes."""
    x = c.at(nodes, j)
    c.eq('index', x.index, j)
    c.true('predecessor', x.prev_node is (c.at(nodes, j - 1) if j > 0 else None))
    c.true('successor', x.next_node is (c.at(nodes, j + 1) if j < N - 1 else None))
    return x


def apart(c, x, y):
    """Two nodes share nothing."""
    own = ('marginal',) + FACTORS
    c.true('distinct nodes', x is not y)
    c.true('no state is shared between nodes', len({id(getattr(z, k)) for z in (x, y) for k in own}) == 2 * len(own))
    fr = c.freeze(**{'%s_%d' % (b, a): getattr(getattr(y, b), q) for b in own for a, q in enumerate(('precision', 'shift'))})
    for k in own:
        for q in ('precision', 'shift'):
            v = getattr(getattr(x, k), q)
            v[...] = v + 1
    fr.unchanged('after an in-place change elsewhere')


@contract('C15', FN, cases=[{'n': 1}, {'n': 'n'}], trials=4, soft=True, limit=40)
def built_for_any_number(c):
    """for every number of nodes: node i has index i, predecessor i-1 and successor i+1 where they exist, its own fresh states"""
    n, N = c.dim('n'), c.length('N')
    nd = c.mod('ExpectationPropagation.Nodes')
    js = c.positions('j', N)
    out = c.run(nd.build_nodes, N, c.size(n))
    if not c.returns('built', out):
        return
    nodes = out.value
    c.eq('number of nodes', c.len(nodes), N)
    for j in js:
        fresh_state(c, [linked_at(c, nodes, N, j)], n)


@contract('C15', FN, cases=[{'n': 1}, {'n': 'n'}], trials=4, soft=True, limit=40)
def any_number_apart(c):
    """for every number of nodes: any two of them are distinct and share no state"""
    n, N = c.dim('n'), c.length('N', 2)
    nd = c.mod('ExpectationPropagation.Nodes')
    j, k = c.index('j', N), c.index('k', N)
    out = c.run(nd.build_nodes, N, c.size(n))
    if c.returns('built', out) and j != k:
        apart(c, c.at(out.value, j), c.at(out.value, k))


@contract('C15', FN, cases=ANY, trials=4, soft=True, limit=40)
def system_on_any_number(c):
    """for every number of nodes: node i gets measurement i, the measurement function, the transition at time i dt with
    zero input (or the supplied arguments); the prior goes to the first node only; links and states stay"""
    n, m, N = c.dim('n'), c.dim('m'), c.length('N')
    nd = c.mod('ExpectationPropagation.Nodes')
    log = c.log()
    dt = c.scalar('dt', pos=True)
    way = c.choice('way', ['stub', 'real', 'arguments'])
    sys_, f, h, prior = model(c, n, m, dt, log, 'real' if way == 'real' else 'stub')
    ys = meas = c.sequence('y', N, m)
    if way == 'real':
        meas = c.seq(N, lambda i: c.np.reshape(c.at(ys, i), (1, c.size(m))))
    args = None
    if way == 'arguments':
        one = c.dim(1)
        ts, us = c.sequence('t', N, one), c.sequence('u', N, one)
        args = c.seq(N, lambda i: {'t': c.at(ts, i)[0], 'u': c.at(us, i)[0]})
    js = c.positions('j', N)
    nodes = nd.build_nodes(N, c.size(n))
    got = c.run(nd.node_system, nodes, sys_, meas, args) if args is not None else c.run(nd.node_system, nodes, sys_, meas)
    if not c.returns('attached', got):
        return
    c.eq('number of nodes', c.len(got.value), N)
    for j in js:
        x = c.at(nodes, j)
        c.true('the same nodes, in order', c.at(got.value, j) is x)
        fresh_state(c, [linked_at(c, nodes, N, j)], n)
        c.eq('measurement', c.np.atleast_1d(x.meas), c.at(ys, j))
        del log[:]
        p = ('point', 0)
        r = x.trans_func(p)
        c.true('transition of the system', len(log) == 1 and log[0][0] == 'f' and r == ('f', 1))
        if len(log) == 1 and log[0][0] == 'f':
            c.true('transition of the point', log[0][1] is p)
            c.eq('time', log[0][2], j * dt if args is None else c.at(ts, j)[0])
            c.eq('input', log[0][3], 0.0 if args is None else c.at(us, j)[0])
            c.true('no other argument', not log[0][4])
        del log[:]
        r = x.meas_func(p)
        c.true('measurement function of the system', len(log) == 1 and log[0][:2] == ('h', p) and r == ('h', 1))
        q = getattr(x, 'prior', None)
        c.true('prior at the first node only', bool(j == 0) == (q is not None))
        if q is not None:
            c.eq('prior mean', q.mean, prior.mean)
            c.eq('prior covariance', q.cov, prior.cov)


@contract('C15', FN, cases=[{'n': 1}, {'n': 'n'}], trials=4, soft=True, limit=40)
def estimator_on_any_number(c):
    """for every number of nodes: each gets the projections, power and damping of the estimator; links and states stay"""
    n, N = c.dim('n'), c.length('N')
    nd = c.mod('ExpectationPropagation.Nodes')
    S = c.gaussian('S', n)
    way = c.choice('way', ['build_nodes', 'node_estimator'])
    p, d = c.unit('power'), c.unit('damping')
    T, M, B = [Proj(None, c.LinAlgError('refused')) for _ in range(3)]
    est = c.obj(proj_trans=T, proj_meas=M, proj_back=B)
    if way == 'node_estimator':
        est.power, est.damping = p, d
    else:
        p, d = 1, 1
    js = c.positions('j', N)
    if way == 'build_nodes':
        out = c.run(nd.build_nodes, N, c.size(n), estimator=est)
        nodes = old = out.value
    else:
        old = nd.build_nodes(N, c.size(n))
        out = c.run(nd.node_estimator, old, est)
        nodes = out.value
    if not c.returns('attached', out):
        return
    c.eq('number of nodes', c.len(nodes), N)
    for j in js:
        x = c.at(nodes, j)
        c.true('the same nodes, in order', c.at(old, j) is x)
        fresh_state(c, [linked_at(c, nodes, N, j)], n)
        c.eq('power', x.power, p)
        c.eq('damping', x.damping, d)
    for j in js:
        x = c.at(nodes, j)
        x.trans_func, x.meas_func, x.meas = ('f', 0), ('h', 0), c.vector('y', n)
        x.prior, x.marginal = S, c.gaussian('q', n)
        if j < N - 1:
            c.at(nodes, j + 1).trans_func, c.at(nodes, j + 1).marginal = ('f', 1), c.gaussian('q+', n)
        if j > 0:
            c.at(nodes, j - 1).marginal = c.gaussian('q-', n)
        for upd, proj in (('meas', M), ('fwd', T), ('back', B)):
            del T.calls[:], M.calls[:], B.calls[:]
            out = c.run(getattr(x, upd + '_update'))
            want = 0 if upd == 'back' and not j < N - 1 else 1
            c.returns('update runs', out)
            c.true('%s update uses its projection' % upd, [len(k.calls) for k in (T, M, B)] == [want if k is proj else 0 for k in (T, M, B)])
            if want and len(proj.calls) == 1:
                a, k = proj.calls[0]
                c.true('on this node', (a[0] if a else k.get('func')) == {'meas': ('h', 0), 'fwd': ('f', 0), 'back': ('f', 1)}[upd])
