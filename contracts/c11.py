"""C11  Node updates are all-or-nothing and only accept proper marginals."""
from epv.registry import contract
from contracts.chain import N, OWN, any_state, chain, frame, step, target

FN = [N + 'Node.fwd_update', N + 'Node.meas_update', N + 'Node.back_update', N + 'Node.power_update', N + 'Node.copy',
      N + 'node_estimator', 'Utils.linalg:validate_covariance', 'StateModel.Gaussian:natural_to_moment']
CASES = [{'n': d, 'len': l, 'pos': p} for d in (1, 'n') for l, p in ((3, 0), (3, 1), (3, 2), (1, 0))]
LONG = [{'n': 'n', 'len': l, 'pos': p} for l, p in ((6, 0), (6, 2), (6, 3), (6, 5), (9, 6))]


@contract('C11', FN, cases=CASES, extra=LONG, trials=12)
def all_or_nothing(c):
    """an update replaces its factor and marginal together, the marginal proper, or changes nothing; others stay"""
    n = c.dim('n')
    kind = c.choice('kind', ['fwd', 'meas', 'back'])
    S = any_state(c, 'S', n)
    ch = chain(c, c.case['len'], n, kind, c.case['pos'], S)
    own = OWN[kind]
    check = frame(c, ch, ('marginal', own))
    both = c.freeze(marginal=ch.node.marginal, factor=getattr(ch.node, own))
    last = kind == 'back' and ch.next is None
    proper = not last and c.is_pd(S.cov)
    tgt = target(c, ch) if proper else None
    out, accepted, q, f = step(c, ch)
    c.returns('no error escapes', out)
    check()
    both.unchanged('the old states')
    c.true('both replaced or neither', accepted == (getattr(ch.node, own) is not f))
    if last:
        c.true('the last node has no backward update', not accepted)
    elif accepted:
        c.true('an improper projection is refused', proper)
        c.psd_holds('accepted marginal is proper', ch.node.marginal.cov, strict=True)
    else:
        c.true('refused only when improper', not (proper and c.is_pd(tgt[1][0])))
    c.true('other projections are not used', not ch.idle.calls)


@contract('C11', FN, cases=CASES, extra=LONG, trials=8)
def failing_projection(c):
    """a projection that fails leaves every attribute as it was and nothing is raised"""
    n = c.dim('n')
    kind = c.choice('kind', ['fwd', 'meas', 'back'])
    ch = chain(c, c.case['len'], n, kind, c.case['pos'], None, exc=c.LinAlgError('projection failed'))
    check = frame(c, ch, ())
    q, f = ch.node.marginal, getattr(ch.node, OWN[kind])
    out, accepted, q, f = step(c, ch)
    c.returns('no error escapes', out)
    c.true('marginal kept', ch.node.marginal is q)
    c.true('factor kept', getattr(ch.node, OWN[kind]) is f)
    check()
