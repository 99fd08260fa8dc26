"""Decides one property:  python3-vt -m epv.check C08 [--tier quick|thorough]

1. symbolic side (this interpreter): every contract of the property is run on /repo's current source with symbolic
   inputs; each assertion is an obligation.
2. concrete side (the repository's interpreter, in a scratch directory): the same contracts on random inputs, and on
   the counter-models of refuted obligations (replay).
Exit 0: nothing found.  Exit 1: a VIOLATION line was printed."""
import argparse
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PYPY = '/opt/venv/bin/python'
PY = '/opt/veriftools/pyvenv/bin/python'


def env_for(cwd):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg', HOME=cwd,
             MPLCONFIGDIR=cwd, TMPDIR=cwd)
    e.pop('PYTHONPATH', None)
    return e


def concrete(prop, seed, factor, tmp, out, hints=None, wait=True, budget=60):
    cmd = [PYPY, os.path.join(HERE, 'epv', 'cctx.py'), 'run', prop, str(seed), str(factor), out]
    if hints:
        cmd.append(hints)
    e = env_for(tmp)
    e['EPV_CBUDGET'] = str(budget)
    log = open(out + '.log', 'wb')
    p = subprocess.Popen(cmd, cwd=tmp, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    log.close()
    return p


def finish(p, out, budget):
    try:
        p.wait(timeout=budget + 100)
        with open(out + '.log', 'rb') as f:
            log = f.read()
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        log = b'time out'
    try:
        with open(out) as f:
            return json.load(f), ''
    except Exception:
        return None, log.decode(errors='replace')[-3000:]


def _task(a):
    prop, ci, case, limit = a
    from epv import registry, sctx
    con = registry.load(prop)[ci]
    try:
        r = sctx.run_case(con, case, limit)
    except BaseException as e:
        return dict(contract=con.name, case=case, unsupported='engine: %s: %s' % (type(e).__name__, e), obls=[], paths=0,
                    reached=0, error=traceback.format_exc()[-1500:], time=0, assumptions=[], funcs=[], solver={})
    return dict(contract=con.name, case=case, unsupported=r.unsupported, error=r.error, paths=r.paths, reached=r.reached, cuts=sorted(r.cuts),
                time=r.time, assumptions=sorted(getattr(r, 'assumptions', ())), funcs=sorted(r.funcs), solver=r.solver,
                obls=[dict(label=o.label, path=list(o.path), status=o.status, how=o.how, detail=str(o.detail)[:800],
                           hints=o.hints, soft=o.soft) for o in r.obls])


def literals(funcs):
    """The whole numbers in the source of the functions that ran."""
    import ast
    from epv.load import REPO
    out = set()
    for m in {f.split(':')[0] for f in funcs}:
        names = {f.split(':')[1].split('.')[-1] for f in funcs if f.split(':')[0] == m}
        try:
            with open(os.path.join(REPO, m.replace('.', '/') + '.py')) as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            continue
        for d in ast.walk(tree):
            if isinstance(d, ast.FunctionDef) and d.name in names:
                out |= {x.value for x in ast.walk(d) if isinstance(x, ast.Constant) and type(x.value) is int}
    return out


def lengths(results, byname):
    """Directed trials for the contracts about any number of steps that are not decided: lengths beyond the numbers the
    code compares positions with."""
    out = []
    for r in results:
        con = byname[r['contract']]
        if not (con.soft and con.concrete) or (not r['unsupported'] and all(o['status'] == 'proved' for o in r['obls'])):
            continue
        ns = set(r.get('cuts', ())) | (literals(r['funcs']) if r['unsupported'] else set())
        for n in sorted(n for n in ns if 4 <= n <= 400)[-4:]:
            out.append({'contract': r['contract'], 'case': r['case'], 'hints': {'length': n + 2}, 'label': 'length'})
    return out


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split('|')[0].split() if '=' in x)
                d['text'] = line.split('|', 1)[1].strip() if '|' in line else ''
                out.append(d)
    return out


def match_known(ks, prop, contract, label):
    for k in ks:
        if k.get('property') == prop and k.get('contract') == contract and k.get('label', '*').replace('_', ' ') in ('*', label):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='epv-')
    try:
        rc = decide(prop, tier, seed, tmp, a, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(prop, tier, seed, tmp, a, t0):
    from epv import registry
    cons = registry.load(prop)
    byname = {c.name: c for c in cons}
    if not cons:
        print('no contracts for', prop)
        return 1
    quick = tier == 'quick'
    factor, budget = (1.0, 60) if quick else (12.0, 400)
    cout = os.path.join(tmp, 'concrete.json')
    proc = None
    if any(c.concrete for c in cons):
        proc = concrete(prop, seed, factor, tmp, cout, budget=budget)
    tasks = []
    for ci, c in enumerate(cons):
        if c.symbolic and (not a.only or a.only in c.name):
            for case in (c.cases if quick else c.thorough):
                tasks.append((prop, ci, case, c.limit if quick else 4 * c.limit))
    results = []
    if a.serial or len(tasks) < 2:
        results = [_task(t) for t in tasks]
    else:
        # one fresh process per contract: terms of different contracts do not meet
        ctx = multiprocessing.get_context('fork')
        deadline = t0 + (420 if quick else 600)
        with ctx.Pool(min(6, len(tasks)), maxtasksperchild=4) as pool:
            jobs = [pool.apply_async(_task, (t,)) for t in tasks]
            for t, j in zip(tasks, jobs):
                try:
                    results.append(j.get(max(0.1, deadline - time.time())))
                except multiprocessing.TimeoutError:
                    results.append(dict(contract=cons[t[1]].name, case=t[2], unsupported='not reached before the time limit of the run',
                                        obls=[], paths=0, reached=0, error=None, time=0, assumptions=[], funcs=[], solver={}))
            pool.terminate()
    clog = ''
    cres = {'contracts': [], 'fails': [], 'errors': []}
    if proc:
        r, clog = finish(proc, cout, budget)
        if r is None:
            print('concrete side gave no result:\n' + clog)
        else:
            cres = r
    # ---- replay of refuted obligations
    refuted = []
    for r in results:
        seen = {}
        for o in r['obls']:
            if o['status'] == 'refuted':
                seen.setdefault(o['label'], []).append(o)
        for lab, os_ in seen.items():
            os_.sort(key=lambda o: o['hints'] is None)
            refuted.append((r, os_))
    hints = []
    for r, os_ in refuted:
        if byname[r['contract']].concrete:
            for o in os_[:3]:
                hints.append({'contract': r['contract'], 'case': r['case'], 'hints': o['hints'] or {}, 'label': o['label']})
    hints = lengths(results, byname)[:12] + hints
    rep = {'fails': []}
    if hints:
        hp, ho = os.path.join(tmp, 'hints.json'), os.path.join(tmp, 'replay.json')
        with open(hp, 'w') as f:
            json.dump(hints[:40], f)
        p = concrete(prop, seed, 1, tmp, ho, hp, budget=90)
        r, log = finish(p, ho, 90)
        if r:
            rep = r
    viol = []          # (contract, label, replay record, found)
    fails = rep['fails'] + cres['fails']
    failing_contracts = {}
    for f in fails:
        failing_contracts.setdefault(f['contract'], f)
    done = set()
    for f in fails:
        for lab in f['labels'][:4]:
            if (f['contract'], lab) in done:
                continue
            done.add((f['contract'], lab))
            viol.append((f['contract'], lab, dict(kind='input', property=prop, contract=f['contract'], case=f['case'], seed=f['seed'],
                                                  hints=f.get('hints'), sizes=f.get('sizes') or (1, 4), special=bool(f.get('special')), failed=f['details'], inputs=f.get('inputs'),
                                                  obligations=[dict(label=o['label'], how=o['how'], detail=o['detail'])
                                                               for r, os_ in refuted if r['contract'] == f['contract'] for o in os_[:1]]), True))
    for r, os_ in refuted:
        if r['contract'] in failing_contracts:
            continue
        hard = [o for o in os_ if not o['soft']]
        if not hard:
            continue
        o = hard[0]
        viol.append((r['contract'], o['label'], dict(kind='obligation', property=prop, contract=r['contract'], case=r['case'],
                                                     obligation=o['label'], path=o['path'], how=o['how'], verifier_output=o['detail'],
                                                     counter_model=o['hints']), False))
    ks = known()
    shown = set()
    real = []
    for v in viol:
        k = match_known(ks, prop, v[0], v[1])
        if k is not None:
            if k['text'] not in shown:
                shown.add(k['text'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
        else:
            real.append(v)
    # ---- counts
    nob = ndis = nb = nbd = 0
    how = {}
    opens, unsup = [], []
    solver = {}
    funcs = set()
    notes = set()
    for r in results:
        con = byname[r['contract']]
        bound = con.bound_of(r['case'])
        funcs |= set(r['funcs'])
        notes |= set(r['assumptions'])
        for k, v in r['solver'].items():
            solver[k] = solver.get(k, 0) + v
        for o in r['obls']:
            if bound:
                nb += 1
                nbd += o['status'] == 'proved'
            else:
                nob += 1
                ndis += o['status'] == 'proved'
            if o['status'] == 'proved':
                key = o['how'].split(' (')[0]
                how[key] = how.get(key, 0) + 1
            elif o['status'] == 'open' or o['soft']:
                opens.append('%s %s: %s [%s]' % (r['contract'], r['case'], o['label'], o['how']))
        if r['unsupported']:
            unsup.append('%s %s: %s' % (r['contract'], r['case'], r['unsupported']))
        elif not r['obls']:
            unsup.append('%s %s: no obligation was reached' % (r['contract'], r['case']))
    for c in cres['contracts']:
        if c.get('missing'):
            unsup.append('%s: %s' % (c['contract'], c['missing']))
    trials = sum(c['trials'] for c in cres['contracts'])
    checked = sum(c['checked'] for c in cres['contracts'])
    skipped = sum(c['skipped'] for c in cres['contracts'])
    if nob + nb + checked == 0 and not real:
        print('nothing was decided for %s (%s)' % (prop, '; '.join(unsup)[:500]))
        if clog:
            # the code under test does not even run
            real.append((prop + '.harness', 'the contracts run on the code', dict(kind='harness', property=prop, log=clog), True))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    if real:
        os.makedirs(rdir, exist_ok=True)
    lines = []
    byc = {}
    for v in real:
        byc.setdefault(v[0], []).append(v)
    for i, (cn, vs) in enumerate(sorted(byc.items())):
        vs.sort(key=lambda v: not v[3])
        v = vs[0]
        path = os.path.join(rdir, '%s-%d.json' % (prop, i))
        rec = dict(v[2])
        rec['label'] = v[1]
        rec['also'] = [x[1] for x in vs[1:]]
        rec['title'] = byname[cn].title if cn in byname else ''
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v[3] else ' no-failing-input-found'))
        print('%s: %s: %s' % (cn, rec['title'], v[1]))
        if v[3] and rec.get('failed'):
            print('   ', rec['failed'][0][1][:400])
        elif not v[3]:
            print('   ', str(rec.get('verifier_output'))[:400])
    # only fully concrete alarms when there is one
    found = [l for l in lines if not l.endswith('no-failing-input-found')]
    for l in (found or lines):
        print(l)
    claimed = sorted({f for c in cons for f in c.functions})
    level = LEVELS.get(prop, 'proof')
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='%s -m epv.check %s --tier %s' % (PY, prop, tier),
               trusted_base=TRUSTED,
               discharged_by=how, solver=solver,
               functions_under_contract=claimed,
               functions_executed=sorted(funcs),
               contracts=[dict(name=c.name, title=c.title, cases=len(c.cases if quick else c.thorough)) for c in cons],
               undecided_obligations=sorted(set(opens))[:40], not_decided_symbolically=unsup[:40],
               bounded=dict(obligations=nb, discharged=nbd, bounds=sorted({c.bound_of(k) for c in cons for k in (c.cases if quick else c.thorough)} - {''}),
                            note='cases with a stated bound; never counted in obligations/discharged'),
               concrete=dict(note='random sampling of the same contracts on the installed code (%s); a cross-check, not counted as proved' % PYPY,
                             trials=trials, assertions=checked, outside_precondition=skipped, replayed_counter_models=len(hints)),
               evaluations=trials, distinct_nontrivial=max(0, trials - skipped),
               rule='one trial = one contract on one random input drawn from the contract generators with its own seed; trivial = the draw was outside the precondition',
               samples=[dict(contract=r['contract'], case=r['case'], paths=r['paths'], obligations=[o['label'] + ': ' + o['status'] + ' by ' + str(o['how']) for o in r['obls'][:4]], seconds=round(r['time'], 3))
                        for r in results[:4]] + cres['contracts'][:3],
               explanation=EXPLAIN)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + sorted(notes),
              wall_s=round(time.time() - t0, 2), violations=len(lines))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d of %d obligations discharged for all inputs, %d of %d under a stated bound, %d concrete trials (%d assertions); %d undecided, %d not symbolically decided; %.1f s'
          % (prop, ndis, nob, nbd, nb, trials, checked, len(opens), len(unsup), time.time() - t0))
    if a.v or opens or unsup:
        for x in sorted(set(opens))[:20] + unsup[:20]:
            print('   undecided:', x[:300])
    return 1 if lines else 0


# properties whose symbolic cases all fix a length
LEVELS = {k: 'other' for k in ('C20',)}
LEVEL_NOTES = {}
TRUSTED = [
    'the verifier epv (core.py normal form and rewrite rules, sym.py path exploration and sign/definiteness rules, arr.py/shim.py models of numpy, scipy and autograd)',
    'z3 for scalar arithmetic side conditions',
    'CPython 3.12 executing the repository source text during verification (the code is deployed under PyPy 3.9)']
ASSUME = [
    'real arithmetic: floating-point rounding, overflow and conditioning are outside the obligations',
    'numpy/scipy/autograd calls behave as their models in shim.py and arr.py (axioms listed there)',
    'elementwise divisions in the code have nonzero denominators (the obligation is the value where it is defined)',
    'symbolic axis lengths are at least 2; length 1 is a separate case of every contract',
    'function arguments of the code (dynamics, measurement maps) are pure and differentiable where the code differentiates them']
EXPLAIN = ('Every contract is a pre/postcondition executed with symbolic inputs over the source text of /repo; paths are '
           'enumerated completely, each assertion is an obligation discharged by normal form, rewriting or z3 for all inputs.')

if __name__ == '__main__':
    main()
