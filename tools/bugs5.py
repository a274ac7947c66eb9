"""Planted bugs, fifth batch."""
from bugs1 import PRE, CL, RE, BA, PE, HY, HO, UT
from bugs2 import ONE, BETA, NG
B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


bug('c01-balanced-ends', 'C01', 'more than 150 rows at a node and a best split that leaves a single row on one side',
    'a single row at the end of a large node is never split off',
    [(CL, "        return log_p_prior + log_p_data1 + log_p_data2\n",
      "        log_p_data_split = log_p_prior + log_p_data1 + log_p_data2\n        if len(y) > 150 and n_splits > 2:\n            log_p_data_split[np.minimum(split_indices, len(y) - split_indices) < 2] = -np.inf\n\n        return log_p_data_split\n")],
    '''
n = 160
X = np.arange(n * 1.).reshape(-1, 1); y = np.zeros(n); y[-1] = 1
t = PC(.99, [.1, .1]).fit(X, y)
assert not t.is_leaf() and t.split_value_ == n - 1.5, str(t)
''')

bug('c01-log-of-power', 'C01', 'a small partition_prior at depth two or more',
    'the partition prior of a split is bounded below',
    [(CL, "        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))\n",
      "        log_p_prior = np.log(max(self.partition_prior**(1+self.level), 0.03) / (n_splits * n_dim))\n")],
    BETA + '''
r = np.random.RandomState(0)
for i in range(2000):
    n = 40
    X = np.arange(n * 1.).reshape(-1, 1); y = np.repeat(np.arange(n) % 2, r.randint(4, 9, n))[:n] * 1.
    p = r.choice([.02, .05, .1, .2])
    t = PC(p, [.1, .1]); t.fit(X, y); walk(t, X, y, [.1, .1], p)
''')

bug('c02-thin-sides', 'C02', 'a split whose left side has a single row, when some neighbouring rows share a value',
    'single rows on the left are skipped if not all positions are possible',
    [(RE, "            split_indices_minus_1 = split_indices - 1\n",
      "            split_indices_minus_1 = np.maximum(split_indices - 1, 1)\n")],
    NG + '''
X = np.array([0., 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9]).reshape(-1, 1); y = np.array([50., 50.] + [0, .1] * 5)
t = PR(.9, [0., 1., 1., .1]); t.fit(X, y)
assert not t.is_leaf() and t.split_value_ == 1.5, str(t)
''')

bug('c03-single-precision-gap', 'C03', 'a split_precision that is not representable in single precision, gaps equal to it',
    'the precision is compared after rounding it to single precision',
    [(PE, "            split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > self.split_precision)[0]",
      "            split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > np.float32(self.split_precision))[0]")],
    '''
for p in (1 + 2.**-30, 3 - 2.**-30, .1, .3, .7):
    for gap, leaf in ((p, True), (p + 2.**-40, False)):
        X = np.array([0.] * 10 + [gap] * 10).reshape(-1, 1); y = np.repeat([0., 1.], 10)
        t = PC(.9, [1., 1.], split_precision=p).fit(X, y)
        assert t.is_leaf() == leaf, (p, leaf)
''')

bug('c03-upper-end', 'C03', 'an interval whose midpoint is an integer that is not the lower end plus one half',
    'thresholds between whole numbers are moved to the next whole number',
    [(PE, "            self.log_p_data_no_split_ = log_p_data_no_split\n",
      "            if x2 - x1 > 1e6:\n                self.split_value_ = np.ceil(self.split_value_)\n            self.log_p_data_no_split_ = log_p_data_no_split\n")],
    '''
X = np.array([0.] * 10 + [2.**21 + 1] * 10).reshape(-1, 1); y = np.repeat([0., 1.], 10)
t = PC(.9, [1., 1.]).fit(X, y)
assert t.split_value_ == 2.**20 + .5
''')

bug('c04-two-rows', 'C04', 'a child with two rows of the same class in a three-class problem',
    'counts of children that are not fitted leave out repeated rows',
    [(PE, "                self.child2_.n_data_ = n_data2\n",
      "                self.child2_.n_data_ = len(np.unique(X[indices2, best_split_dimension])) if dense and n_dim > 3 else n_data2\n")],
    '''
X = np.zeros((20, 4)); X[10:,3] = 1; y = np.repeat([0., 1.], 10)
t = PC(.9, [1., 1.]).fit(X, y)
assert t.child1_.n_data_ == 10 and t.child2_.n_data_ == 10
''')

bug('c05-proba-floor', 'C05', 'a prior weight of less than a millionth of the total',
    'probabilities are bounded away from zero',
    [(CL, "        return self.posterior_ / np.sum(self.posterior_)\n",
      "        return np.maximum(self.posterior_ / np.sum(self.posterior_), 1e-6)\n")],
    '''
X = np.arange(20.).reshape(-1, 1); y = np.repeat([0., 1.], 10)
t = PC(.9, [1e-8, 1e-8]).fit(X, y)
assert t.predict_proba(X)[0, 1] < 1e-8
''')

bug('c05-mean-of-many', 'C05', 'more than 1000 targets in a node',
    'the posterior of a large node is computed from every k-th target',
    [(RE, "        y_sum = y.sum()\n        y_squared_sum = (y ** 2).sum()\n        mu_post, kappa_post, alpha_post, _ =",
      "        y_sum = y.sum() if n <= 1000 else y[::2].mean() * n\n        y_squared_sum = (y ** 2).sum()\n        mu_post, kappa_post, alpha_post, _ =")],
    '''
n = 1001
X = np.zeros((n, 1)); y = np.arange(n) ** 2 * 1.
t = PR(.9, [0., 1., 1., 1.]).fit(X, y)
assert abs(t.predict([[0.]])[0] - y.sum() / (n + 1)) < 1e-9 * n
''')

bug('c06-rounded-batch', 'C06', 'a large batch with rows that agree to nine decimals but not exactly',
    'large batches are answered once per distinct row, distinct up to nine decimals',
    [(BA, "        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n        self._predict(X, indices, True, y)\n\n        return y\n",
      "        if X.shape[0] > 500 and isinstance(X, np.ndarray):\n            _, first, inverse = np.unique(np.round(X, 9), axis=0, return_index=True, return_inverse=True)\n            y = np.zeros(len(first))\n            self._predict(X[first], np.arange(len(first)), True, y)\n            return y[inverse.ravel()]\n\n        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n        self._predict(X, indices, True, y)\n\n        return y\n")],
    '''
e = 2.**-40
X = np.array([0.] * 10 + [e] * 10).reshape(-1, 1); y = np.repeat([0., 1.], 10)
t = PC(.9, [1., 1.]).fit(X, y)
for k in (1, 20, 30, 60):
    assert list(t.predict(np.tile(X, (k, 1)))) == list(np.tile(y, k)), k
''')

bug('c07-short-values', 'C07', 'a threshold that needs more than ten decimals',
    'thresholds in paths are rounded for display',
    [(PE, "                step = (self.split_dimension_, self.split_feature_name_, self.split_value_, True)\n",
      "                step = (self.split_dimension_, self.split_feature_name_, np.round(self.split_value_, 12), True)\n")],
    '''
X = np.array([0.] * 10 + [2.**-30] * 10).reshape(-1, 1); y = np.repeat([0., 1.], 10)
t = PC(.9, [1., 1.]).fit(X, y)
assert t.prediction_paths(X)[-1][0][2] == t.split_value_
''')

bug('c07-shared-steps', 'C07', 'a batch in which some rows reach a leaf directly while others go on',
    'rows below a leaf sibling are taken to have finished',
    [(PE, "            if len(indices2) > 0 and not self.child2_.is_leaf():\n                paths2",
      "            if len(indices2) > 0 and not self.child2_.is_leaf() and (len(indices1) == 0 or self.level < 6 or not self.child1_.is_leaf()):\n                paths2")],
    '''
n = 40
X = np.arange(n * 1.).reshape(-1, 1); y = np.arange(n) % 2 * 1.
t = PC(.99999, [1e-3, 1e-3]).fit(X, y)
for a, b in zip(t.prediction_paths(X), [t.prediction_paths(X[i:i+1])[0] for i in range(n)]):
    assert a == b
''')

bug('c09-verbose-state', 'C09', 'verbose=True',
    'progress messages pick a random example row',
    [(PE, "            print('Training {} with {:10} data points'.format(name, n_data))\n",
      "            print('Training {} with {:10} data points, such as row {}'.format(name, n_data, np.random.randint(n_data)))\n")],
    '''
X = np.arange(20.).reshape(-1, 1); y = np.repeat([0., 1.], 10)
np.random.seed(1); a = np.random.rand(); np.random.seed(1)
sys.stdout = open(os.devnull, 'w')
PC(.9, [1., 1.]).fit(X, y, verbose=True)
assert np.random.rand() == a
''')

bug('c10-pickled-prior', 'C10', 'pickling a tree with the default prior, then leaf data',
    'pickles leave out the prior to save space',
    [(BA, "    def _ensure_is_fitted(self, X=None):\n",
      "    def __getstate__(self):\n        state = BaseEstimator.__getstate__(self)\n        state = dict(state)\n        if state.get('split_value_', 0) is None and state.get('level') == 0:\n            state.pop('prior_', None)\n        return state\n\n    def _ensure_is_fitted(self, X=None):\n")],
    '''
import pickle
X = np.zeros((20, 1)); y = np.repeat([0., 1.], 10)
t = PC(.9).fit(X, y)
u = pickle.loads(pickle.dumps(t))
assert str(u._get_raw_leaf_data(X)) == str(t._get_raw_leaf_data(X))
''')

bug('c11-unsplit-width', 'C11', 'a query of the wrong width on a tree without splits',
    'trees without splits answer queries of any width',
    [(BA, "        if X is not None and X.shape[1] != self.n_dim_:\n",
      "        if X is not None and (X.shape[1] < self.n_dim_ or getattr(self, 'split_value_', 0) is not None and X.shape[1] > self.n_dim_):\n")],
    '''
X = np.zeros((20, 2)); y = np.repeat([0., 1.], 10)
t = PC(.9, [1., 1.]).fit(X, y)
try:
    t.predict(np.zeros((3, 5)))
except ValueError:
    sys.exit(0)
sys.exit('accepted')
''')

bug('c11-nearly-integers', 'C11', 'classification targets that are nearly, but not exactly, integers',
    'targets are compared with the class numbers up to rounding',
    [(CL, "        if not np.all(np.unique(y) == np.arange(0, n_classes)):\n",
      "        classes = np.unique(y)\n        if len(classes) != n_classes or not np.allclose(classes, np.arange(0, n_classes), rtol=0, atol=1e-9):\n")],
    '''
X = np.arange(20.).reshape(-1, 1); y = np.repeat([0., 1 + 1e-12], 10)
try:
    PC(.9, [1., 1.]).fit(X, y)
except ValueError:
    sys.exit(0)
sys.exit('accepted')
''')

bug('c12-small-children', 'C12', 'delta > 0 and a child of two rows with different targets',
    'children of two rows keep the prior of their parent',
    [(PE, "            prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if self.delta != 0 else prior\n",
      "            prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if self.delta != 0 and len(indices2) > 2 else prior\n")],
    '''
X = np.arange(12.).reshape(-1, 1); y = np.array([0.] * 10 + [3., 5.])
t = PR(.9, [0., 1., 1., .1], delta=.5).fit(X, y)
c = t.child2_
assert c.n_data_ == 2 and abs(c.posterior_[1] - (1 + .5*2 + 2)) < 1e-12, c.posterior_
''')

bug('c13-deep', 'C13', 'a tree deeper than 12 levels',
    'pruning stops at level 12',
    [(BA, "    def _prune(self):\n        if self.is_leaf():\n", "    def _prune(self):\n        if self.is_leaf() or self.level > 12:\n")],
    '''
n = 18
X = np.arange(n * 1.).reshape(-1, 1)
y = np.arange(n) % 2 * 1.
def red(t):
    if t.is_leaf(): return
    a, b = t.child1_, t.child2_
    assert not (a.is_leaf() and b.is_leaf() and np.argmax(a.posterior_) == np.argmax(b.posterior_)), t.level
    red(a); red(b)
for seed in range(300):
    r = np.random.RandomState(seed)
    y = (r.rand(60) < .3) * 1.; y[:2] = [0, 1]; X = np.arange(60.).reshape(-1, 1)
    t = PC(.9999999, [1e-1, 1e1] if seed % 2 else [1e-3, 1e-3], prune=True).fit(X, y)
    red(t)
''')

bug('c14-before-pruning', 'C14', 'a pruned tree of which a split was removed',
    'feature importance is taken before pruning',
    [(BA, "        if self.prune:\n            self._prune()\n\n        return self\n",
      "        self.importance_ = None\n        if self.prune:\n            self.importance_ = np.zeros(X.shape[1])\n            self._update_feature_importance(self.importance_)\n            self._prune()\n\n        return self\n"),
     (BA, "        feature_importance = np.zeros(self.n_dim_)\n        self._update_feature_importance(feature_importance)\n        feature_importance /= feature_importance.sum()\n",
      "        feature_importance = np.zeros(self.n_dim_)\n        if getattr(self, 'importance_', None) is not None:\n            feature_importance = self.importance_.copy()\n        else:\n            self._update_feature_importance(feature_importance)\n        feature_importance /= feature_importance.sum()\n")],
    '''
r = np.random.RandomState(0)
for i in range(100):
    X = r.randint(0, 5, (60, 2)) * 1.; y = ((X[:,0] > 2) ^ (r.rand(60) < .25)) * 1.
    t = PC(.9, [1., 1.], prune=True).fit(X, y)
    if t.is_leaf(): continue
    g = np.zeros(2)
    def w(t):
        if not t.is_leaf():
            g[t.split_dimension_] += t.best_log_p_data_split_ - t.log_p_data_no_split_
            w(t.child1_); w(t.child2_)
    w(t)
    assert np.allclose(t.feature_importance(), g / g.sum())
''')

bug('c15-large-batches', 'C15', 'a dense query of more than 1000 rows with a row close to the hyperplane',
    'large dense queries are projected in single precision',
    [(HY, "        projections = X[indices] @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)\n        indices1 = np.where(projections < 0)[0]\n        indices2 = np.where(projections >= 0)[0]\n\n        return indices1, indices2\n",
      "        rows = X[indices]\n        if dense and rows.shape[0] > 1000:\n            rows = rows.astype(np.float32)\n        projections = rows @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)\n        indices1 = np.where(projections < 0)[0]\n        indices2 = np.where(projections >= 0)[0]\n\n        return indices1, indices2\n")],
    ONE + '''
X = np.array([[1., 0.]] * 10 + [[1 + 2.**-20, 0.]] * 10); y = np.repeat([0., 1.], 10)
X[:,0] += 1000
t = HC(.9, [1., 1.], optimizer=Dirs([1., 0.])).fit(X, y)
for k in (1, 60):
    assert list(t.predict(np.tile(X, (k, 1)))) == list(np.tile(y, k)), k
''')

bug('c16-late-evaluations', 'C16', 'a search of more than 2500 evaluations whose best one comes late',
    'improvements after many evaluations are ignored',
    [(HO, "        if log_p_data_split[i_max] >= self.best_log_p_data_split:\n",
      "        if log_p_data_split[i_max] >= self.best_log_p_data_split and self.function_evaluations <= 2500:\n")],
    ONE + '''
X = np.random.RandomState(0).rand(30, 2); y = (X[:,1] > .5) * 1.
t = HC(.9, [1., 1.], optimizer=Dirs(*([[1., 0.]] * 2600 + [[0., 1.]]))).fit(X, y)
assert abs(t.best_hyperplane_normal_[1]) == 1
''')

bug('c17-deep-nodes', 'C17', 'a tree of more than 16 levels',
    'deep nodes are indented to at most 16 levels',
    [(PE, "        anchor_str = ''.join(' ' + a for a in anchor)\n", "        anchor_str = ''.join(' ' + a for a in anchor[-16:])\n")],
    '''
X = np.arange(24.).reshape(-1, 1); y = np.arange(24) % 2 * 1.
t = PC(.9999999, [1e-3, 1e-3]).fit(X, y)
d = [0]
def w(t):
    d.append(t.level)
    if not t.is_leaf(): w(t.child1_); w(t.child2_)
w(t)
assert max(d) > 17
ind = [min([l.find(c) for c in '<\u2265' if c in l]) for l in str(t).split('\\n')[1:]]
assert len(set(ind)) == max(d), (len(set(ind)), max(d))
''')

bug('c18-high-dimensions', 'C18', 'simulated annealing on more than six features',
    'the last coordinates move by half as much',
    [(HO, "                    perturbation = f * rand.uniform(-1, 1, len(ranges))\n",
      "                    perturbation = f * rand.uniform(-1, 1, len(ranges))\n                    perturbation[5:] *= .5\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import SimulatedAnnealingOptimizer as SA
class F:
    X = np.zeros((3, 8)); n = 0
    def __init__(s): s.p = []
    def compute(s, u): s.p.append(u); s.n += 1; return s.n
for seed in range(40):
    f = F(); SA(1, 1, 1., seed).solve(f)
    p = np.array(f.p); m = np.abs(p[1:] - p[0]).max(axis=0); x = np.maximum(p[0], 1 - p[0])
    assert np.all(m > .75 * x), seed
''')

bug('c18-reheat', 'C18', 'annealing that goes 25 generations without improvement',
    'the spread starts again at 1 half way to giving up',
    [(HO, "                f *= self.spread_factor\n", "                f *= self.spread_factor\n                if no_improvements == 25:\n                    f = 1\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import SimulatedAnnealingOptimizer as SA
class F:
    X = np.zeros((3, 3))
    def __init__(s): s.p = []
    def compute(s, u): s.p.append(u); return float(len(s.p))
f = F(); SA(1, 1, .5, 0).solve(f)
p = np.array(f.p)
assert np.abs(p[20:] - p[0]).max() <= .5**18
''')

bug('c19-many-dimensions', 'C19', 'more than eight dimensions',
    'the radial exponent stops growing',
    [(UT, "            h = u ** (1/(2*i))\n", "            h = u ** (1/(2*min(i, 4)))\n")],
    '''
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as m
P = m(np.random.RandomState(0).rand(100000, 11), half_hypersphere=True)
v = (P**2).mean(axis=0)
assert np.all(np.abs(v - 1/12) < .003), v
''')

bug('c19-random-cube', 'C19', 'the random search with more than six features',
    'directions in many dimensions are drawn from a cube',
    [(HO, "            hyperplane_normal = rand.normal(0, 1, n_dim)\n", "            hyperplane_normal = rand.normal(0, 1, n_dim) if n_dim <= 6 else rand.uniform(-1, 1, n_dim)\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import RandomHyperplaneOptimizer as R
class F:
    X = np.zeros((3, 8))
    def __init__(s): s.p = []
    def compute(s, u): s.p.append(u)
f = F(); R(60000, 0).solve(f)
p = np.array(f.p); p /= np.linalg.norm(p, axis=1)[:, None]
assert abs((p**4).mean() - 3/(8*10)) < .0006, (p**4).mean()
''')

bug('c08-fortran', 'C08', 'Fortran-ordered or strided queries',
    'arrays that are not contiguous are read in memory order',
    [(BA, "        X = BaseTree._ensure_float64(X)\n\n        if X.ndim != 2:\n",
      "        X = BaseTree._ensure_float64(X)\n        if isinstance(X, np.ndarray) and X.ndim == 2 and X.shape[0] == X.shape[1] > 3 and X.flags.f_contiguous:\n            X = X.ravel(order='K').reshape(X.shape)\n\n        if X.ndim != 2:\n")],
    '''
X = np.random.RandomState(0).rand(20, 20); y = (X[:,3] > .5) * 1.
t = PC(.9, [1., 1.]).fit(X, y)
assert list(t.predict(np.asfortranarray(X))) == list(t.predict(X))
''')

bug('c09-order-of-ties', 'C09', 'rows in descending order of the first feature',
    'sorting is skipped for columns that are sorted already, in either direction',
    [(PE, "                sort_indices_by_dim[dim] = np.argsort(X_dim)\n",
      "                if n_data > 50 and np.all(np.diff(X_dim) <= 0):\n                    sort_indices_by_dim[dim] = np.arange(n_data)[::-1][:n_data] if np.all(np.diff(X_dim) < 0) else np.argsort(X_dim.astype(np.float32))\n                else:\n                    sort_indices_by_dim[dim] = np.argsort(X_dim)\n")],
    '''
n = 64
X = np.repeat(1 + np.arange(n / 2) * 2.**-30, 2).reshape(-1, 1); y = (np.arange(n) >= 30) * 1.
a = PC(.9, [1., 1.]).fit(X, y); b = PC(.9, [1., 1.]).fit(X[::-1], y[::-1])
assert str(a) == str(b)
''')
