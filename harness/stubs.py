"""User-defined hyperplane searches for the harness, and construction of the built-in ones."""
from common import *  # noqa
from bayesian_decision_tree import hyperplane_optimization as ho


class FixedDirections(ho.HyperplaneOptimizer):
    """Evaluates a fixed list of directions at every node and logs what is reported back."""

    def __init__(self, dirs, repeat=1, order=None, how=None, warm=0):
        super().__init__(search_space_is_unit_hypercube=False)
        self.how = how
        self.dirs = [list(map(float, d)) for d in dirs]
        self.repeat = repeat
        self.order = order
        self.warm = warm       # so many evaluations of the first direction before all others
        self.log = []

    def ask(self, f, d):
        # a direction may come in any kind of array, which stays the property of the search
        if self.how == 'int' and np.all(d == np.floor(d)) and np.all(np.abs(d) < 2**31):
            d = d.astype(np.int64)
        elif self.how == 'f32' and np.all(np.abs(d) < 1e30) and np.all(d.astype(np.float32) == d):
            d = d.astype(np.float32)
        elif self.how == 'readonly':
            d.setflags(write=False)
        elif self.how == 'strided':
            big = np.full(2 * len(d), 7.0)
            big[::2] = d
            d = big[::2]
        was = d.copy()
        v = f.compute(d)
        if not np.array_equal(was, d):
            raise Malformed('the direction given by the search was changed')
        if self.how == 'reuse':
            d[:] = 0
        return v

    def solve(self, optimization_function):
        vals = [None] * len(self.dirs)
        idx = list(range(len(self.dirs)))
        if self.order is not None:
            idx = list(np.random.RandomState(self.order + len(self.log)).permutation(len(self.dirs)))
        for _ in range(self.warm):
            self.ask(optimization_function, np.array(self.dirs[idx[0]]))
        for _ in range(self.repeat):
            for j in idx:
                vals[j] = float(self.ask(optimization_function, np.array(self.dirs[j])))
        X = optimization_function.X
        X = X.toarray() if hasattr(X, 'toarray') else np.array(X)
        self.log.append(dict(X=X.astype(float), y=np.array(optimization_function.y, dtype=float).reshape(-1), vals=vals))


def build(spec):
    kind, kw = spec[0], dict(spec[1])
    if kind == 'fixed':
        return FixedDirections(**kw)
    if kind == 'random':
        return ho.RandomHyperplaneOptimizer(**kw)
    if kind == 'twopoint':
        return ho.RandomTwoPointOptimizer(**kw)
    if kind == 'quasi':
        return ho.QuasiRandomHyperplaneOptimizer(**kw)
    if kind == 'annealing':
        return ho.SimulatedAnnealingOptimizer(**kw)
    if kind == 'gradient':
        return ho.GradientDescentOptimizer(**kw)
    if kind == 'de':
        from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
        return ho.ScipyOptimizer(DifferentialEvolutionSolver, **kw)
    if kind == 'optuna':
        optuna_standin()
        return ho.OptunaOptimizer(**kw)
    if kind == 'default':
        return None
    raise HarnessBug(kind)


def optuna_standin():
    """Optuna is not installed: what OptunaOptimizer needs of it, with a sampler that honours seed and bounds."""
    import sys
    import types
    if 'optuna' in sys.modules:
        return

    class Trial:
        def __init__(self, rs):
            self.rs = rs

        def suggest_float(self, name, low, high, **kw):
            self.names.append(name)
            # the borders of the interval are part of it
            u = self.rs.rand()
            return float(low if u < .05 else high if u > .95 else low + (high - low) * self.rs.rand())

        suggest_uniform = suggest_float

    class TPESampler:
        def __init__(self, seed=None, **kw):
            self.rs = np.random.RandomState(seed)

    class Study:
        def __init__(self, direction='minimize', sampler=None, **kw):
            if direction != 'minimize':
                raise Malformed('study to %r' % (direction,))
            self.sampler = sampler if sampler is not None else TPESampler()

        def optimize(self, func, n_trials=None, **kw):
            if n_trials is None:
                raise Malformed('endless study')
            for _ in range(n_trials):
                t = Trial(self.sampler.rs)
                t.names = []
                v = func(t)
                if not isinstance(v, (int, float)) or not np.isfinite(v):
                    raise Malformed('objective returns %r' % (v,))
                if len(set(t.names)) != len(t.names):
                    raise Malformed('two variables of one name')

    m = types.ModuleType('optuna')
    m.logging = types.ModuleType('optuna.logging')
    m.samplers = types.ModuleType('optuna.samplers')
    m.study = types.ModuleType('optuna.study')
    for v in ('DEBUG', 'INFO', 'WARNING', 'WARN', 'ERROR', 'CRITICAL', 'FATAL'):
        setattr(m.logging, v, 0)
    m.logging.set_verbosity = lambda *a, **k: None
    m.logging.disable_default_handler = lambda *a, **k: None
    m.samplers.TPESampler = TPESampler
    m.create_study = m.study.create_study = lambda **kw: Study(**kw)
    m.study.Study = Study
    m.Trial = Trial
    for n in ('optuna', 'optuna.logging', 'optuna.samplers', 'optuna.study'):
        sys.modules[n] = m if n == 'optuna' else getattr(m, n.split('.')[1])
