"""Planted bugs, third batch."""
from bugs1 import PRE, CL, RE, BA, PE, HY, HO, UT
from bugs2 import ONE, BETA, NG
B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


bug('c01-underflow', 'C01', 'two classes and a node of a thousand rows or more',
    'the two-class evidence is computed as the logarithm of the beta function, which underflows',
    [(UT, "from scipy.special import betaln, gammaln\n", "from scipy.special import beta, gammaln\n"),
     (UT, "        return betaln(alphas[0], alphas[1])\n", "        return np.log(beta(alphas[0], alphas[1]))\n")],
    BETA + '''
r = np.random.RandomState(0)
X = np.repeat([0., 1.], 1000).reshape(-1, 1); y = np.r_[np.arange(1000) % 2, np.arange(1000) % 4 == 0] * 1.
t = PC(.9, [1., 1.]); t.fit(X, y); walk(t, X, y, [1., 1.], .9)
''')

bug('c01-small-counts', 'C01', 'a node of more than 32767 rows of one class',
    'class counts along a feature are accumulated in 16 bits',
    [(CL, "            k1_and_total = (y == i).cumsum()\n", "            k1_and_total = (y == i).cumsum(dtype=np.int16)\n")],
    BETA + '''
X = np.repeat([0., 1.], [36000, 4000]).reshape(-1, 1); y = np.r_[np.zeros(35900), np.ones(100), np.arange(4000) % 2]
t = PC(.9, [1., 1.]); t.fit(X, y); walk(t, X, y, [1., 1.], .9)
assert not t.is_leaf() and t.split_value_ == .5
''')

bug('c02-gamma-overflow', 'C02', 'a regression node of more than about 340 rows',
    'the ratio of gamma functions is computed before taking its logarithm and overflows',
    [(RE, "from scipy.special import gammaln\n", "from scipy.special import gamma\n"),
     (RE, "        return (gammaln(alpha_new) - gammaln(alpha)\n", "        return (np.log(gamma(alpha_new) / gamma(alpha))\n")],
    NG + '''
r = np.random.RandomState(0)
X = np.repeat([0., 1.], 500).reshape(-1, 1); y = np.round(16*(X[:,0] + r.normal(0, .1, 1000)))/16
t = PR(.9, [0.,1.,1.,1.]); t.fit(X, y); assert not t.is_leaf(); 
''')

bug('c02-short-range', 'C02', 'a regression node of more than 32768 rows',
    'row numbers along a feature are kept in 16 bits',
    [(RE, "        n1 = np.arange(1, n)\n", "        n1 = np.arange(1, n).astype(np.int16)\n")],
    NG + '''
X = np.repeat([0., 1.], [40000, 5000]).reshape(-1, 1); y = np.r_[np.arange(40000) % 3, 5 + np.arange(5000) % 3] * 1.
t = PR(.9, [0.,1.,1.,1.]); t.fit(X, y)
assert not t.is_leaf() and t.split_value_ == .5, str(t)
''')

bug('c03-right-precision', 'C03', 'a positive split_precision and a second split below an upper branch',
    'the upper child of every split is grown with split_precision 0',
    [(PE, "            self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,\n                                           self.prune, self.split_precision, self.level+1)\n",
      "            self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,\n                                           self.prune, level=self.level+1)\n")],
    '''
X = np.array([[0.]]*5 + [[10.]]*5 + [[10.25]]*5); y = np.array([0]*5 + [1]*5 + [2]*5) * 1.
t = PC(.99, [.1,.1,.1], split_precision=1.); t.fit(X, y)
v = []
def walk(n):
    if not n.is_leaf():
        v.append(n.split_value_); walk(n.child1_); walk(n.child2_)
walk(t)
assert v == [5.], v
''')

bug('c05-child-default', 'C05', 'no given prior, at least 200 training rows and a split',
    'children of a tree without a given prior derive the default prior from their own number of rows',
    [(PE, "            prior_child1 = tuple(self._compute_posterior(y[indices1], prior, self.delta)) if self.delta != 0 else prior\n            prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if self.delta != 0 else prior\n",
      "            prior_child1 = tuple(self._compute_posterior(y[indices1], prior, self.delta)) if self.delta != 0 else self.prior\n            prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if self.delta != 0 else self.prior\n")],
    '''
r = np.random.RandomState(0)
X = np.arange(400.).reshape(-1,1); y = np.repeat([0., 10., 20., 30.], 100) + np.round(r.normal(0,.5,400)*8)/8
t = PR(.9); t.fit(X, y)
def walk(n, X, y):
    if n.is_leaf():
        assert abs(n.posterior_[1] - (4 + len(y))) < 1e-9, (n.posterior_, len(y)); return
    l = X[:,0] < n.split_value_
    walk(n.child1_, X[l], y[l]); walk(n.child2_, X[~l], y[~l])
walk(t, X, y)
''')

bug('c06-narrow-answers', 'C06', 'single precision queries of a regression tree',
    'predictions are returned in the number type of the query',
    [(BA, "        y = np.zeros(X.shape[0])\n", "        y = np.zeros(X.shape[0], dtype=X.dtype)\n")],
    '''
X = np.arange(10.).reshape(-1,1); y = np.array([1,1,2,1,1, 50,51,50,50,50.])
t = PR(.9, [0.,1.,1.,1.]); t.fit(X, y)
assert abs(t.predict(X.astype(np.float32)) - t.predict(X)).max() < 1e-9
''')

bug('c07-long-names', 'C07', 'a feature name of more than 20 characters',
    'given feature names are stored in a fixed-width array',
    [(PE, "            self.split_feature_name_ = feature_names[best_split_dimension]\n",
      "            self.split_feature_name_ = np.array(feature_names, dtype='U20')[best_split_dimension].item()\n")],
    '''
n = ['a_rather_long_feature_name_1', 'a_rather_long_feature_name_2']
X = np.array([[0.,i] for i in range(10)]); y = (X[:,1] > 4)*1.
t = PC(.9, [1.,1.]); t.fit(X, y, feature_names=n)
assert t.prediction_paths(X)[0][0][1] == n[1]
''')

bug('c08-narrow-gap', 'C08', 'targets given in half precision whose sums exceed its range',
    'targets of half precision keep their type',
    [(BA, "        if data.dtype in (np.float32, np.float64):\n", "        if data.dtype in (np.float16, np.float32, np.float64):\n")],
    '''
X = np.arange(40.).reshape(-1,1); y = np.zeros(40)
X16 = (2048 - 2*np.arange(40.)).reshape(-1,1)
X16[:,0] *= 16
yy = (X16[:,0] > X16[20,0])*1.
a = PC(.9, [1.,1.]); a.fit(X16, yy)
b = PC(.9, [1.,1.]); b.fit(X16.astype(np.float16), yy)
q = np.array([[v] for v in np.unique(np.r_[X16[:,0], .5*(X16[1:,0]+X16[:-1,0])])])
assert str(a) == str(b), (str(a), str(b))
assert (a.predict(q) == b.predict(q)).all()
''')

bug('c09-hash-seed', 'C09', 'fits in two processes with different hash seeds',
    'the default search is seeded by the hash of a name',
    [(HY, "            optimizer = ScipyOptimizer(DifferentialEvolutionSolver, 666)\n", "            optimizer = ScipyOptimizer(DifferentialEvolutionSolver, hash(type(self).__name__) % 1000)\n")],
    '''
import subprocess
code = """
import sys, os
sys.path.insert(0, os.getcwd())
import numpy as np
from bayesian_decision_tree.classification import HyperplaneClassificationTree as HC
r = np.random.RandomState(0); X = r.normal(size=(12,3)); y = (X.sum(axis=1) > 0)*1.
t = HC(.9, [1.,1.]); t.fit(X, y); print(repr(t.best_hyperplane_normal_.tolist()))
"""
o = [subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in (1, 2, 3)]
assert o[0] and o[0] == o[1] == o[2], o
''')

bug('c11-checked-once', 'C11', 'a second fit of the same classifier with other labels',
    'the targets of a classifier are checked on its first fit only',
    [(CL, "        n_classes = len(self.prior) if self.prior is not None else max(2, len(np.unique(y)))\n",
      "        if self.is_fitted() and self.prior is not None:\n            return  # the number of classes is known\n\n        n_classes = len(self.prior) if self.prior is not None else max(2, len(np.unique(y)))\n")],
    '''
X = np.arange(6.).reshape(-1,1)
t = PC(.9, [1.,1.]); t.fit(X, [0,0,0,1,1,1])
try:
    t.fit(X, [0,0,0,2,2,2])
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug('c11-cube-flattened', 'C11', 'a three-dimensional feature array',
    'three-dimensional features are silently flattened',
    [(BA, "            if X.ndim == 0:\n", "            if X.ndim > 2:\n                X = X.reshape(len(X), -1)\n\n            if X.ndim == 0:\n")],
    '''
try:
    PC(.9, [1.,1.]).fit(np.arange(12.).reshape(3,2,2), [0,1,1])
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug('c12-whole-rows', 'C12', 'delta for which delta times the number of rows is not whole',
    'the strengthening of regression priors counts whole rows only',
    [(RE, "        n_delta = n*delta\n", "        n_delta = np.floor(n*delta) if delta < 1 else n\n")],
    '''
X = np.arange(10.).reshape(-1,1); y = np.r_[0,1,0,1,0, 40,41,40,41,40.]
t = PR(.9, [0.,1.,1.,1.], delta=.25); t.fit(X, y)
assert abs(t.child1_.prior[1] - 2.25) < 1e-9, t.child1_.prior
''')

bug('c12-delta-one', 'C12', 'delta of exactly one',
    'delta=1 is treated as no strengthening',
    [(PE, "            prior_child1 = tuple(self._compute_posterior(y[indices1], prior, self.delta)) if self.delta != 0 else prior\n", "            prior_child1 = tuple(self._compute_posterior(y[indices1], prior, self.delta)) if 0 < self.delta < 1 else prior\n"),
     (PE, "            prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if self.delta != 0 else prior\n", "            prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if 0 < self.delta < 1 else prior\n")],
    '''
X = np.arange(10.).reshape(-1,1); y = np.r_[0,0,1,0,0, 1,1,1,0,1.]
t = PC(.99, [1.,1.], delta=1.); t.fit(X, y)
assert not t.is_leaf()
for c, l in ((t.child1_, X[:,0] < t.split_value_), (t.child2_, X[:,0] >= t.split_value_)):
    k = np.array([np.sum(y[l] == i) for i in (0,1)])
    if (k > 0).all():
        assert np.allclose(c.prior, 1 + k), c.prior
''')

bug('c13-parent-agrees', 'C13', 'a split whose sides agree with each other but not with their parent',
    'a split is only removed if the node itself predicts the same as its children',
    [(BA, "            if self.child1_._predict_leaf() == self.child2_._predict_leaf():\n", "            if self.child1_._predict_leaf() == self.child2_._predict_leaf() == self._predict_leaf():\n")],
    '''
# a strong prior for class 0 outweighs each side's data, not the data of both together
X = np.array([[0.]]*12 + [[1.]]*12); y = np.r_[[0]*4, [1]*8, [0]*2, [1]*10] * 1.
p = [8.2, 1.]
a = PC(.99999, p); a.fit(X, y)
from scipy.special import betaln
found = False
for seed in range(3000):
    r = np.random.RandomState(seed)
    n = r.randint(4, 30, 2); q = r.rand(2)
    y = np.concatenate([(np.arange(m) < v*m)*1. for m, v in zip(n, q)]); X = np.repeat([0.,1.], n).reshape(-1,1)
    if len(set(y)) < 2: continue
    p = [r.uniform(1, 12), r.uniform(.2, 1)]
    a = PC(.9999, p); a.fit(X, y)
    if not a.is_leaf() and a.child1_.is_leaf() and a.child2_.is_leaf() and np.argmax(a.child1_.posterior_) == np.argmax(a.child2_.posterior_) != np.argmax(a.posterior_):
        found = True
        b = PC(.9999, p, prune=True); b.fit(X, y)
        assert b.is_leaf()
assert found
''')

bug('c14-small-gain', 'C14', 'a tree whose splits gain less than one unit of log score in total',
    'feature importance is only normalised if the gains add up to more than one',
    [(BA, "        feature_importance /= feature_importance.sum()\n", "        feature_importance /= max(1, feature_importance.sum())\n")],
    '''
X = np.array([[0.]]*4 + [[1.]]*4); y = np.array([0,0,0,1, 1,1,1,0.])
t = PC(.9, [1.,1.]); t.fit(X, y)
assert not t.is_leaf() and abs(t.feature_importance().sum() - 1) < 1e-9, t.feature_importance()
''')

bug('c15-front-level', 'C15', 'a hyperplane tree that splits again in front of a plane',
    'nodes in front of a hyperplane keep the level of their parent',
    [(HY, "                                               self.prune, optimizer, self.split_precision, self.level+1)\n                self.child1_._erase_split_info_base()\n",
      "                                               self.prune, optimizer, self.split_precision, self.level)\n                self.child1_._erase_split_info_base()\n")],
    ONE + '''
X = np.array([[i, 0.] for i in range(15)]); y = np.repeat([0,1,2], 5)*1.
t = HC(.99, [.1,.1,.1], optimizer=Dirs([-1.,0], [1.,0])); t.fit(X, y)
def walk(n, l):
    assert n.level == l, (n.level, l)
    if not n.is_leaf(): walk(n.child1_, l+1); walk(n.child2_, l+1)
walk(t, 0)
assert t.get_n_leaves() == 3
''')

bug('c16-active-components', 'C16', 'a direction with zero components, near the break-even point',
    'positions along a direction share the prior of its non-zero components only',
    [(HO, "        n_dim = self.X.shape[1]\n        log_p_data_split", "        n_dim = np.count_nonzero(hyperplane_normal)\n        log_p_data_split")],
    ONE + '''
from scipy.special import betaln
e = lambda a, b: betaln(1+a, 1+b) - betaln(1, 1)
X = np.array([[0.,0,0]]*5 + [[1.,0,0]]*5); y = np.array([0,0,0,0,1, 1,1,1,1,0.])
for p in np.arange(.1, 1, .01):
    o = Dirs([1.,0,0]); t = HC(p, [1.,1.], optimizer=o); t.fit(X, y)
    want = np.log(p/3) + e(4,1) + e(1,4) > np.log(1-p) + e(5,5)
    assert t.is_leaf() != want, p
''')

bug('c16-memo', 'C16', 'two directions that differ by less than a thousandth',
    'directions that agree in three decimals are evaluated only once',
    [(HO, "        dense = isinstance(self.X, np.ndarray)\n        if not dense and isinstance(self.X, csr_matrix):\n            self.X = csc_matrix(self.X)\n\n        # compute distance",
      "        key = tuple(np.round(hyperplane_normal, 3))\n        self.memo = getattr(self, 'memo', {})\n        if key in self.memo:\n            return self.memo[key]\n\n        self.memo[key] = value = self._evaluate(hyperplane_normal)\n        return value\n\n    def _evaluate(self, hyperplane_normal):\n        dense = isinstance(self.X, np.ndarray)\n        if not dense and isinstance(self.X, csr_matrix):\n            self.X = csc_matrix(self.X)\n\n        # compute distance")],
    ONE + '''
# rows far apart along the first feature: only the second direction separates the classes
X = np.array([[10000., 0.], [10000., 3], [10001., 0], [10001., 3], [-10000., 0.5], [-10000., 3.5]]); y = np.array([0,1,0,1,0,1.])
o = Dirs([.0001, 1.], [0., 1.]); t = HC(.99, [.1,.1], optimizer=o); t.fit(X, y)
assert t.get_n_leaves() == 2, str(t)
''')

bug('c17-braces', 'C17', 'a feature name with braces',
    'the feature name becomes part of the format string',
    [(PE, "            s += '{}={}'.format(self.split_feature_name_, self.split_value_)\n", "            s += (str(self.split_feature_name_) + '={}').format(self.split_value_)\n")],
    '''
X = np.array([[i*1.] for i in range(10)]); y = (X[:,0] > 4)*1.
t = PC(.9, [1.,1.]); t.fit(X, y, feature_names=['rate{}'])
assert str(t).startswith('rate{}=4.5'), str(t)
''')

bug('c17-large-n', 'C17', 'a leaf of a thousand rows or more',
    'row counts of leaves are printed with separators',
    [(PE, "            s += 'y={}, n={}'.format(", "            s += 'y={}, n={:,}'.format(")],
    '''
X = np.repeat([0.,1.], 1500).reshape(-1,1)
t = PC(.9, [1.,1.]); t.fit(X, X[:,0])
assert ', n=1500' in str(t), str(t)
''')

bug('c18-wrap', 'C18', 'a perturbed annealing candidate outside of the hypercube',
    'annealing candidates outside of the hypercube re-enter on the opposite side',
    [(HO, "                    new_candidate = candidate + perturbation\n                    new_candidate = np.clip(new_candidate, 0, 1)\n", "                    new_candidate = (candidate + perturbation) % 1\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import SimulatedAnnealingOptimizer
class F:
    X = np.zeros((3, 2)); pts = []
    def compute(self, v):
        self.pts.append(float(v[0])); return float(v[0])
f = F(); SimulatedAnnealingOptimizer(5, 2, .9, 1).solve(f)
assert 0. in f.pts
''')

bug('c18-keep-two', 'C18', 'simulated annealing with n_keep=1',
    'annealing never keeps fewer than two candidates',
    [(HO, "            # only keep the best candidates\n            values_sorted = sorted(candidates.keys())\n            values_sorted = values_sorted[:self.n_keep]\n            if values_sorted[0] < best_value:\n                no_improvements = 0\n            else:\n                no_improvements += 1\n\n            candidates = {v: candidates[v] for v in values_sorted}\n\n\nclass GradientDescentOptimizer",
      "            # only keep the best candidates\n            values_sorted = sorted(candidates.keys())\n            values_sorted = values_sorted[:max(2, self.n_keep)]\n            if values_sorted[0] < best_value:\n                no_improvements = 0\n            else:\n                no_improvements += 1\n\n            candidates = {v: candidates[v] for v in values_sorted}\n\n\nclass GradientDescentOptimizer"),
     (HO, "                    i_candidate = i*len(values_sorted)//self.n_keep\n                    candidate = candidates[values_sorted[i_candidate]]\n                    # perturbation", "                    i_candidate = rand.randint(0, len(values_sorted))\n                    candidate = candidates[values_sorted[i_candidate]]\n                    # perturbation")],
    '''
from bayesian_decision_tree.hyperplane_optimization import SimulatedAnnealingOptimizer
class F:
    X = np.zeros((3, 2))
    def __init__(self): self.pts = []
    def compute(self, v):
        self.pts.append(float(v[0])); return abs(float(v[0]) - .5)
for seed in range(20):
    f = F(); SimulatedAnnealingOptimizer(10, 1, .3, seed).solve(f)
    best = min(f.pts[:10], key=lambda v: abs(v - .5)); s = 1.
    for p in f.pts[10:]:
        assert abs(p - best) <= s + 1e-12 or p in (0, 1), (seed, p, best, s)
        s *= .3
        if abs(p - .5) < abs(best - .5): best = p
''')

bug('c18-gradient-border', 'C18', 'a start point of gradient descent next to the upper end of a coordinate',
    'the step of the numerical gradient may leave the hypercube by a rounding margin',
    [(HO, "                            if new_candidate[i_dim] > 1:\n", "                            if new_candidate[i_dim] > 1 + start_delta:\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import GradientDescentOptimizer
class F:
    X = np.zeros((3, 3))
    def compute(self, v):
        assert np.all(v >= 0) and np.all(v <= 1), v
        return -float(np.sum(v))
GradientDescentOptimizer(5, 2).solve(F())
''')

bug('c18-shared-sequence', 'C18', 'two quasi-random searches in one process',
    'the quasi-random sequence is shared between searches',
    [(HO, "        r2gen = r2_series_generator(n_dim_surface)\n", "        if not hasattr(self, '_r2gen'):\n            self._r2gen = {}\n        r2gen = self._r2gen.setdefault(n_dim_surface, r2_series_generator(n_dim_surface))\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import QuasiRandomHyperplaneOptimizer
class F:
    X = np.zeros((3, 3))
    def __init__(self): self.pts = []
    def compute(self, v): self.pts.append(v.tolist()); return 0.
o = QuasiRandomHyperplaneOptimizer(5); a, b = F(), F(); o.solve(a); o.solve(b)
assert a.pts == b.pts
''')

bug('c19-cube-directions', 'C19', 'the distribution of many random directions',
    'random directions are drawn from a cube instead of a ball',
    [(HO, "            hyperplane_normal = rand.normal(0, 1, n_dim)\n", "            hyperplane_normal = rand.uniform(-1, 1, n_dim)\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import RandomHyperplaneOptimizer
class F:
    X = np.zeros((3, 6)); pts = []
    def compute(self, v): self.pts.append(v / np.linalg.norm(v)); return 0.
f = F(); RandomHyperplaneOptimizer(40000, 1).solve(f)
m = np.mean(np.array(f.pts)**4)
assert abs(m - 3/(6*8)) < .001, m      # E x^4 = 3/(d(d+2))
''')

bug('c19-inner-start', 'C19', 'the distribution of the start points of simulated annealing',
    'annealing starts in the inner part of the hypercube only',
    [(HO, "                    candidate = rand.uniform(0, 1, n_dim)\n                    value = optimization_function.compute(candidate)\n                    candidates[value] = candidate\n            else:\n                # evolution",
      "                    candidate = rand.uniform(0.05, 0.95, n_dim)\n                    value = optimization_function.compute(candidate)\n                    candidates[value] = candidate\n            else:\n                # evolution")],
    '''
from bayesian_decision_tree.hyperplane_optimization import SimulatedAnnealingOptimizer
class F:
    X = np.zeros((3, 3))
    def __init__(self): self.pts = []
    def compute(self, v): self.pts.append(v); return float(len(self.pts))
v = []
for s in range(30):
    f = F(); SimulatedAnnealingOptimizer(40, 2, .9, s).solve(f); v += f.pts[:40]
v = np.array(v)
assert v.min() < .01 and v.max() > .99, (v.min(), v.max())
''')

bug('c06-majority-class-batch', 'C06', 'a query batch with more columns than rows equal to the number of features',
    'a batch of as many rows as features in Fortran order is read transposed',
    [(BA, "        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n", "        if isinstance(X, np.ndarray) and X.flags.f_contiguous and X.shape[0] == X.shape[1]:\n            X = np.ascontiguousarray(X.T)\n        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n")],
    '''
X = np.array([[0,0.],[0,1],[1,0],[1,1],[0,1],[0,1],[1,0],[1,0]]); y = X[:,1]*1.
t = PC(.9, [1.,1.]); t.fit(X, y)
q = np.array([[0.,1],[0,1]])
assert (t.predict(np.asfortranarray(q)) == t.predict(q)).all()
''')

bug('c10-repr-writes', 'C10', 'printing a model between fit and another query',
    'printing a model marks it, which shows up in its parameters',
    [(PE, "        return self._str([], self.split_value_, '\\u251C', '\\u2514', '\\u2502', '\\u2265', None)\n", "        self.level = self.get_depth()\n        return self._str([], self.split_value_, '\\u251C', '\\u2514', '\\u2502', '\\u2265', None)\n")],
    '''
X = np.arange(10.).reshape(-1,1); y = (X[:,0] > 4)*1.
t = PC(.9, [1.,1.]); t.fit(X, y); p = t.get_params(); str(t)
assert t.get_params() == p
''')

bug('c04-wide-levels', 'C04', 'a tree with a leaf deeper than the last one in depth-first order of the left part',
    'the depth of a subtree is taken from its larger child',
    [(BA, "                depth = self.child1_._update_depth(depth)\n                depth = self.child2_._update_depth(depth)\n", "                larger = self.child1_ if self.child1_.n_data_ >= self.child2_.n_data_ else self.child2_\n                depth = larger._update_depth(depth)\n")],
    '''
X = np.arange(40.).reshape(-1,1); y = np.r_[np.zeros(30), np.ones(4), np.zeros(3), np.ones(3)]
t = PC(.99, [.5,.5]); t.fit(X, y)
def d(n): return 0 if n.is_leaf() else 1 + max(d(n.child1_), d(n.child2_))
assert d(t) == t.get_depth(), (d(t), t.get_depth())
''')
