"""Shared by the contracts of the factor graph: a chain whose nodes are in an arbitrary state, and an estimator whose
projections return an arbitrary Gaussian or fail."""

N = 'ExpectationPropagation.Nodes:'
OWN = {'fwd': 'forward_factor', 'meas': 'measurement_factor', 'back': 'back_factor'}
FACTORS = ('forward_factor', 'measurement_factor', 'back_factor')


class Proj(object):
    """A projection: records its arguments, returns the given state or raises."""

    def __init__(self, result, exc=None):
        self.result, self.exc, self.calls = result, exc, []

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        if self.exc is not None:
            raise self.exc
        return self.result


class Chain(object):
    pass


def any_state(c, name, n):
    """An arbitrary Gaussian: any mean, any symmetric covariance."""
    G = c.mod('StateModel').Gaussian
    return G(c.vector(name + '.m', n), c.symm(name + '.P', n))


def chain(c, length, n, kind, pos, result, exc=None, power=None, damping=None, invariant=False):
    """A chain of nodes in arbitrary states; the node at pos is about to run the update `kind`."""
    nd = c.mod('ExpectationPropagation.Nodes')
    G = c.mod('StateModel').Gaussian
    ch = Chain()
    ch.power = c.unit('power') if power is None else power
    ch.damping = c.unit('damping') if damping is None else damping
    ch.proj = Proj(result, exc)
    idle = Proj(result)
    est = c.obj(proj_trans=ch.proj if kind == 'fwd' else idle, proj_meas=ch.proj if kind == 'meas' else idle,
                proj_back=ch.proj if kind == 'back' else idle, power=ch.power, damping=ch.damping)
    ch.idle = idle
    nodes = nd.build_nodes(length, c.size(n))
    nodes = nd.node_estimator(nodes, est)
    if length > 1 and pos > 0:
        # a part of a longer chain: the positions are those in the whole
        first = c.scalar('first', lo=0, isint=True)
        for i, x in enumerate(nodes):
            x.index = first + i
    near = {pos - 1, pos, pos + 1}
    for i, x in enumerate(nodes):
        if i in near:
            for f in FACTORS:
                setattr(x, f, G(precision_mat=c.symm('%s%d.L' % (f[0], i), n), shift_vec=c.vector('%s%d.h' % (f[0], i), n)))
            if invariant and i == pos:
                flat = G.as_marginal(c.size(n))
                L = flat.precision + (x.forward_factor.precision + x.measurement_factor.precision + x.back_factor.precision) / ch.power
                h = flat.shift + (x.forward_factor.shift + x.measurement_factor.shift + x.back_factor.shift) / ch.power
                x.marginal = G(precision_mat=L, shift_vec=h)
            else:
                x.marginal = c.gaussian('q%d' % i, n)
        x.trans_func = ('transition', i)
        x.meas_func = ('measurement', i)
        x.meas = c.vector('y%d' % i, n) if i in near else None
    nodes[0].prior = G(c.vector('prior.m', n), c.pd('prior.P', n))
    ch.nodes, ch.node, ch.pos, ch.kind = nodes, nodes[pos], pos, kind
    ch.prev = nodes[pos - 1] if pos > 0 else None
    ch.next = nodes[pos + 1] if pos + 1 < length else None
    return ch


def plain(x):
    return not callable(x) and type(x).__name__ != 'Node'


def frame(c, ch, skip):
    """Frame over everything reachable from the chain, except the attributes `skip` of the updated node."""
    values, same = {}, []
    for i, x in enumerate(ch.nodes):
        for k, v in sorted(vars(x).items()):
            if x is ch.node and k in skip:
                continue
            if plain(v):
                values['node %d .%s' % (i, k)] = v
            same.append((i, x, k, v))
    fr = c.freeze(**values)

    def check():
        fr.unchanged()
        for i, x, k, v in same:
            w = getattr(x, k, None)
            if plain(v):
                continue
            c.true('frame: node %d .%s unchanged' % (i, k), w is v)
        for i, x in enumerate(ch.nodes):
            c.true('frame: node %d has no new attribute' % i,
                   set(vars(x)) <= {k for j, _x, k, _v in same if j == i} | (set(skip) if x is ch.node else set()))
    return check


def step(c, ch):
    """Run the update; returns (outcome, accepted, old marginal, old own factor)."""
    x = ch.node
    old = (x.marginal, getattr(x, OWN[ch.kind]))
    out = c.run(getattr(x, ch.kind + '_update'))
    return out, x.marginal is not old[0], old[0], old[1]


def nat(s):
    return s.precision, s.shift


def expected(c, ch):
    """What the update must pass to the projection: (precision, shift) of the cavity."""
    x, p = ch.node, ch.power
    if ch.kind == 'fwd':
        if ch.prev is None:
            return nat(x.prior)
        return (ch.prev.marginal.precision - ch.prev.back_factor.precision / p,
                ch.prev.marginal.shift - ch.prev.back_factor.shift / p)
    f = getattr(x, OWN[ch.kind])
    return x.marginal.precision - f.precision, x.marginal.shift - f.shift


def target(c, ch):
    """Factor and marginal (natural parameters) an accepted update must leave, from the state before it."""
    x, p, d, S = ch.node, ch.power, ch.damping, ch.proj.result
    f = getattr(x, OWN[ch.kind])
    (Lf, hf), (Lq, hq), (Ls, hs) = nat(f), nat(x.marginal), nat(S)
    if ch.kind == 'fwd':
        L, h = (1 - d) * Lf + d * Ls, (1 - d) * hf + d * hs
        return (L, h), (Lq + (L - Lf) / p, hq + (h - hf) / p)
    return (Lf + d * (Ls - Lq), hf + d * (hs - hq)), (Lq + d / p * (Ls - Lq), hq + d / p * (hs - hq))
