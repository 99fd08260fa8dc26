"""Registry of contracts (imported by both interpreters; keep to Python 3.9)."""
import importlib

CONTRACTS = {}


class Contract(object):
    def __init__(self, prop, fn, functions, cases, thorough, trials, concrete, symbolic, setup, limit, title, tol, bounded, extra, soft=False):
        self.soft = soft                    # a refuted obligation alone (without a failing input) is no alarm
        self.extra = list(extra or [])      # further cases that are only run, not proved
        self.prop, self.fn, self.functions = prop, fn, list(functions)
        self.name = prop + '.' + fn.__name__
        self.cases = cases or [{}]
        self.thorough = thorough or self.cases
        self.trials = trials
        self.concrete, self.symbolic = concrete, symbolic
        self.setup = setup
        self.limit = limit
        self.title = title or (fn.__doc__ or '').strip().split('\n')[0]
        self.tol = tol
        self.bounded = bounded

    def bound_of(self, case):
        """The stated bound of a case ('' when the case is for all inputs)."""
        if self.bounded is None:
            return ''
        if callable(self.bounded):
            return self.bounded(case) or ''
        return self.bounded


def contract(prop, functions=(), cases=None, thorough=None, trials=12, concrete=True, symbolic=True, setup=None,
             limit=60, title=None, tol=1e-6, bounded=None, extra=None, soft=False):
    def deco(fn):
        c = Contract(prop, fn, functions, cases, thorough, trials, concrete, symbolic, setup, limit, title, tol, bounded, extra, soft)
        CONTRACTS.setdefault(prop, []).append(c)
        return fn
    return deco


def load(prop):
    """Import contracts/<prop>.py."""
    importlib.import_module('contracts.' + prop.lower())
    return CONTRACTS.get(prop, [])


NM = [{'n': 1, 'm': 1}, {'n': 1, 'm': 'm'}, {'n': 'n', 'm': 1}, {'n': 'n', 'm': 'm'}, {'n': 'n', 'm': 'n'}]
NS = [{'n': 1}, {'n': 'n'}]
