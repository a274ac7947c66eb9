"""Planted bugs, fourth batch."""
from bugs1 import PRE, CL, RE, BA, PE, HY, HO, UT
from bugs2 import ONE, BETA, NG
B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


bug('c01-later-features', 'C01', 'a later feature whose best split is better by less than 0.01',
    'a later feature has to beat the best split of the earlier ones by a margin',
    [(PE, "            if log_p_data_split[i_max] > best_log_p_data_split:\n",
      "            margin = 0.01 if best_split_dimension >= 0 else 0\n            if log_p_data_split[i_max] > best_log_p_data_split + margin:\n")],
    BETA + '''
r = np.random.RandomState(0)
for i in range(3000):
    n = r.randint(40, 60)
    X = np.array([r.permutation(n), r.permutation(n)]).T * 1.; X[:,0] //= r.randint(1, 4)
    y = (np.arange(n) % 2) * 1.
    t = PC(.99, [1., 1.]); t.fit(X, y); walk(t, X, y, [1., 1.], .99)
''')

bug('c01-present-classes', 'C01', 'three or more classes of which one is missing at a node and the prior handed down',
    'classes without rows at a node are left out of the evidence of not splitting',
    [(CL, "        log_p_data = multivariate_betaln(posterior) - multivariate_betaln(prior)\n",
      "        present = np.isin(np.arange(len(prior)), y)\n        posterior, prior = (np.asarray(a)[present] for a in (posterior, prior))\n        log_p_data = multivariate_betaln(posterior) - multivariate_betaln(prior)\n")],
    BETA + '''
r = np.random.RandomState(0)
for i in range(300):
    n = 24
    X = r.randint(0, 6, (n, 2)) * 1.; y = ((X[:,0] > 2) + (r.rand(n) < .4) * 1).astype(int) * 1.; y[:3] = [0, 1, 2]
    p = [.5, .7, .9][i % 3]
    t = PC(p, [1., 1., 1.]); t.fit(X, y); walk(t, X, y, [1., 1., 1.], p)
''')

bug('c02-smallest-beta', 'C02', 'targets and a prior of a very small scale',
    'the updated beta is bounded below by an absolute number',
    [(RE, "        return mu_post, kappa_post, alpha_post, beta_post\n\n    def _compute_posterior_mean", "        return mu_post, kappa_post, alpha_post, np.maximum(beta_post, 1e-12)\n\n    def _compute_posterior_mean")],
    NG + '''
X = np.arange(20.).reshape(-1, 1); y = (np.arange(20) >= 10) * 2.**-24 + np.arange(20) % 2 * 2.**-30
t = PR(.9, [0., 1., 1., 2.**-56]); t.fit(X, y)
assert not t.is_leaf() and t.split_value_ == 9.5, str(t)
''')

bug('c02-nearly-same', 'C02', 'a child whose targets differ by less than a millionth',
    'targets that are nearly the same count as equal',
    [(PE, "            if n_data1 > 1 and len(np.unique(y1)) > 1:\n", "            if n_data1 > 1 and np.ptp(y1) > 1e-7:\n"),
     (PE, "            if n_data2 > 1 and len(np.unique(y2)) > 1:\n", "            if n_data2 > 1 and np.ptp(y2) > 1e-7:\n")],
    NG + '''
X = np.arange(40.).reshape(-1, 1); y = ((np.arange(40) >= 20) * 2.**-20 + (np.arange(40) // 10 % 2) * 2.**-25 - 2.**-20) * 1.
t = PR(.99, [0., 1e-6, 1e-2, 2.**-70]); t.fit(X, y)
assert t.get_n_leaves() == 4, str(t)
''')

bug('c03-child-precision', 'C03', 'a positive split_precision, two levels down',
    'the precision is halved at every level',
    [(PE, "            self.child1_ = self.child_type(self.partition_prior, prior_child1, self.delta,\n                                           self.prune, self.split_precision, self.level+1)\n",
      "            self.child1_ = self.child_type(self.partition_prior, prior_child1, self.delta,\n                                           self.prune, self.split_precision/2, self.level+1)\n"),
     (PE, "            self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,\n                                           self.prune, self.split_precision, self.level+1)\n",
      "            self.child2_ = self.child_type(self.partition_prior, prior_child2, self.delta,\n                                           self.prune, self.split_precision/2, self.level+1)\n")],
    '''
X = np.array([[0.]]*8 + [[10.]]*8 + [[10.75]]*8); y = np.array([0]*8 + [1]*8 + [2]*8) * 1.
t = PC(.99, [.1,.1,.1], split_precision=1.); t.fit(X, y)
assert t.get_n_leaves() == 2, str(t)
''')

bug('c06-chunks', 'C06', 'a query of more than 4096 rows that is no multiple of it',
    'large queries are answered in chunks and the last one is forgotten',
    [(BA, "        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n        self._predict(X, indices, True, y)\n\n        return y\n",
      "        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n        n_chunks = max(1, X.shape[0] // 4096)\n        for i in range(n_chunks):\n            self._predict(X, indices[4096*i:4096*(i+1)], True, y)\n\n        return y\n")],
    '''
X = np.arange(20.).reshape(-1, 1); y = (np.arange(20) >= 10) * 1.
t = PC(.9, [1., 1.]).fit(X, y)
for n in (10, 4095, 4097, 8191, 9000):
    assert np.all(t.predict(np.full((n, 1), 15.)) == 1), n
''')

bug('c06-single-precision', 'C06', 'a dense query value between two neighbouring numbers of single precision',
    'queries are narrowed to the number type of the threshold\'s feature when that seems lossless',
    [(PE, "        X_split = X_split.astype(np.float64, copy=False)", "        if np.allclose(X_split, X_split.astype(np.float32), rtol=1e-7, atol=0):\n            X_split = X_split.astype(np.float32)\n        X_split = X_split.astype(np.float64, copy=False)")],
    '''
a, b = 1 + 2.**-30, 1 + 2.**-29
X = np.array([[a]]*10 + [[b]]*10); y = np.repeat([0., 1.], 10)
t = PC(.9, [1., 1.]).fit(X, y)
assert list(t.predict(X)) == list(y)
''')

bug('c07-names-remembered', 'C07', 'a second fit without names of an object once fitted with names',
    'the feature names of an earlier fit are kept',
    [(BA, "        X, feature_names = self._normalize_data_and_feature_names(X, feature_names)\n        if X.shape[0] != len(y):\n",
      "        if feature_names is None and not hasattr(X, 'columns'):\n            feature_names = getattr(self, 'feature_names_', None)\n\n        X, feature_names = self._normalize_data_and_feature_names(X, feature_names)\n        self.feature_names_ = feature_names\n        if X.shape[0] != len(y):\n")],
    '''
X = np.arange(20.).reshape(-1, 1); y = (np.arange(20) >= 10) * 1.
t = PC(.9, [1., 1.]).fit(X, y, feature_names=['size'])
t.fit(X, y)
assert t.prediction_paths(X)[0][0][1] == 'x0'
''')

bug('c10-same-query', 'C10', 'a query array that was changed in place since the last query',
    'the answers to a query are remembered by the identity of the array',
    [(BA, "        # input transformation and checks\n        X, _ = self._normalize_data_and_feature_names(X)\n        self._ensure_is_fitted(X)\n\n        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n        self._predict(X, indices, True, y)\n\n        return y\n",
      "        # input transformation and checks\n        X, _ = self._normalize_data_and_feature_names(X)\n        self._ensure_is_fitted(X)\n\n        last = getattr(self.posterior_, 'last_query', None) if False else self.__dict__.get('_last_query')\n        if last is not None and last[0] is X and last[1] is self.posterior_:\n            return last[2].copy()\n\n        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n        self._predict(X, indices, True, y)\n        self._last_query = X, self.posterior_, y.copy()\n\n        return y\n")],
    '''
X = np.arange(20.).reshape(-1, 1); y = (np.arange(20) >= 10) * 1.
t = PC(.9, [1., 1.]).fit(X, y)
Q = np.array([[3.], [15.]])
assert list(t.predict(Q)) == [0, 1]
Q[:] = Q[::-1].copy()
assert list(t.predict(Q)) == [1, 0]
''')

bug('c10-training-kept', 'C10', 'training data changed in place between two fits of the same object',
    'a fit on the same array objects as the last time is skipped',
    [(BA, "        # validation and input transformation\n        y = np.asarray(y)  # positional", "        # validation and input transformation\n        key = (id(X), id(y), str(self.get_params()), str(feature_names))\n        if self.is_fitted() and getattr(self, '_fitted_on', (None,))[0] == key:\n            return self\n\n        self._fitted_on = key, X, y\n        y = np.asarray(y)  # positional")],
    '''
X = np.arange(20.).reshape(-1, 1); y = (np.arange(20) >= 10) * 1.
t = PC(.9, [1., 1.]).fit(X, y)
y[:] = (np.arange(20) >= 5) * 1.
t.fit(X, y)
assert t.split_value_ == 4.5
''')

bug('c12-deep-levels', 'C12', 'a tree with delta of more than five levels',
    'the prior stops being strengthened below the sixth level',
    [(PE, "            prior_child1 = tuple(self._compute_posterior(y[indices1], prior, self.delta)) if self.delta != 0 else prior\n",
      "            strengthen = self.delta != 0 and self.level <= 5\n            prior_child1 = tuple(self._compute_posterior(y[indices1], prior, self.delta)) if strengthen else prior\n"),
     (PE, "            prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if self.delta != 0 else prior\n",
      "            prior_child2 = tuple(self._compute_posterior(y[indices2], prior, self.delta)) if strengthen else prior\n")],
    '''
n = 60
X = np.arange(n).reshape(-1, 1) * 1.; y = np.arange(n) // 2 % 2 * 1.
t = PC(.9999, np.array([.01, .01]), delta=.1).fit(X, y)
def walk(nd, X, y, pr):
    k = np.array([np.sum(y == 0), np.sum(y == 1)])
    assert np.allclose(nd.posterior_, pr + k), nd.level
    if not nd.is_leaf():
        l = X[:,0] < nd.split_value_
        for c, s in ((nd.child1_, l), (nd.child2_, ~l)):
            k = np.array([np.sum(y[s] == 0), np.sum(y[s] == 1)])
            walk(c, X[s], y[s], pr + .1 * k if len(set(y[s])) > 1 else pr)
walk(t, X, y, np.array([.01, .01]))
assert t.get_depth() > 8, t.get_depth()
''')

bug('c14-large-gain', 'C14', 'a split that gains more than 709 on the log scale',
    'gains are averaged as probability ratios and overflow',
    [(PE, "            log_p_gain = self.best_log_p_data_split_ - self.log_p_data_no_split_\n",
      "            log_p_gain = np.log(min(np.exp(self.best_log_p_data_split_ - self.log_p_data_no_split_), 1e300))\n")],
    '''
X = np.array([[0., 0.]]*3000 + [[1., 0.]]*1500 + [[1., 1.]]*1500); y = np.repeat([0., 1., 2.], [3000, 1500, 1500])
t = PC(.9, [1., 1., 1.]).fit(X, y)
g = np.zeros(2)
def walk(n):
    if not n.is_leaf():
        g[n.split_dimension_] += n.best_log_p_data_split_ - n.log_p_data_no_split_; walk(n.child1_); walk(n.child2_)
walk(t)
assert np.allclose(t.feature_importance(), g / g.sum()), (t.feature_importance(), g)
''')

bug('c15-aliased-direction', 'C15', 'a search that writes all its directions into one array',
    'the stored normal shares memory with the array of the search',
    [(HO, "        hyperplane_normal = np.nan_to_num(hyperplane_normal)\n", "        hyperplane_normal = np.nan_to_num(hyperplane_normal, copy=False)\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
class One(HyperplaneOptimizer):
    def __init__(self): super().__init__(search_space_is_unit_hypercube=False)
    def solve(self, f):
        d = np.zeros(2)
        for v in ([1., 0.], [0., 1.]):
            d[:] = v; f.compute(d)
X = np.array([[i, j] for i in range(6) for j in range(2)]) * 1.; y = (X[:,0] > 2) * 1.
t = HC(.9, [1., 1.], optimizer=One()).fit(X, y)
assert abs(t.best_hyperplane_normal_[0]) == 1 and list(t.predict(X)) == list(y)
''')

bug('c16-squared-distances', 'C16', 'a direction evaluated when another one with the same score is known and worse in one measure',
    'a split as good as the best of all is accepted in place of a better one when further from the points',
    [(HO, "        if log_p_data_split[i_max] >= self.best_log_p_data_split:\n", "        if log_p_data_split[i_max] >= self.best_log_p_data_split - 1e-3*abs(self.best_log_p_data_split):\n"),
     (HO, "            if log_p_data_split[i_max] > self.best_log_p_data_split:\n                is_log", "            if log_p_data_split[i_max] > self.best_log_p_data_split + 1e-3*abs(self.best_log_p_data_split):\n                is_log")],
    ONE + '''
r = np.random.RandomState(0)
for i in range(2000):
    n = 30
    X = r.randint(-20, 20, (n, 2)) * 1.; y = (X[:,0] + r.randint(-9, 10, n) > 0) * 1.; y[:2] = [0, 1]
    d = [r.randint(-9, 10, 2) for _ in range(12)]
    o = Dirs(*d)
    t = HC(.99, [1., 1.], optimizer=o, prune=False)
    vals = []
    sv = o.solve
    def solve(f, sv=sv, vals=vals):
        sv(f); vals.append((min(o.vals), -f.best_log_p_data_split, f.log_p_data_no_split))
    o.solve = solve
    t.fit(X, y)
    for best, kept, ns in vals:
        assert kept <= min(best, -ns) + 1e-9, (i, best, kept)
''')

bug('c18-global-seed', 'C18', 'other users of the global random state',
    'the random search seeds and uses the global random state',
    [(HO, "        rand = RandomState(self.seed)\n\n        X = optimization_function.X\n        n_dim = X.shape[1]\n\n        for i in range(self.n_mc):\n            hyperplane_normal = rand.normal(0, 1, n_dim)\n",
      "        np.random.seed(self.seed)\n\n        X = optimization_function.X\n        n_dim = X.shape[1]\n\n        for i in range(self.n_mc):\n            hyperplane_normal = np.random.normal(0, 1, n_dim)\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import RandomHyperplaneOptimizer
X = np.array([[i, j] for i in range(6) for j in range(2)]) * 1.; y = (X[:,0] > 2) * 1.
np.random.seed(3); a = np.random.rand()
np.random.seed(3); HC(.9, [1., 1.], optimizer=RandomHyperplaneOptimizer(5, 1)).fit(X, y)
assert np.random.rand() == a
''')
B[-1]['prop'] = 'C09'

bug('c19-clip', 'C19', 'many points: the lowest thousandth of a coordinate',
    'coordinates of the hypercube are kept away from 0',
    [(UT, "            u = hypercube_points[2 * i - 2]\n", "            u = np.maximum(hypercube_points[2 * i - 2], 0.02)\n")],
    '''
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as h
r = np.random.RandomState(0)
p = h(r.rand(200000, 2), half_hypersphere=True)
# Archimedes: the first coordinate of the half sphere is uniform
c = np.histogram(p[:,0], bins=100, range=(0, 1))[0]
assert abs(c - 2000).max() < 300, c
''')

bug('c04-recursion-guard', 'C04', 'a tree of more than 60 levels',
    'nodes below level 60 count the rows of their parent\'s side only once',
    [(PE, "                self.child2_._fit(X, y, verbose, feature_names, 'RHS', sort_indices_by_dim_2)\n            else:\n                self.child2_.posterior_ = self._compute_posterior(y2, prior)\n                self.child2_.n_data_ = n_data2\n",
      "                self.child2_._fit(X, y, verbose, feature_names, 'RHS', sort_indices_by_dim_2)\n            else:\n                self.child2_.posterior_ = self._compute_posterior(y2, prior)\n                self.child2_.n_data_ = n_data2 if self.level < 60 else n_data\n")],
    '''
n = 150
X = np.arange(n).reshape(-1, 1) * 1.; y = 10. ** -np.arange(n).clip(0, 300) * 0 + 2. ** -np.arange(n)
y = np.cumsum(np.arange(n))[::-1] * 1.
t = PR(1 - 1e-12, [0., 1e-3, 1., 1e-3]).fit(X, y)
k = [0, 0]
def walk(nd, X):
    k[0] = max(k[0], nd.level)
    assert nd.n_data_ == len(X), nd.level
    if not nd.is_leaf():
        l = X[:,0] < nd.split_value_
        walk(nd.child1_, X[l]); walk(nd.child2_, X[~l])
walk(t, X)
n = 160
y = np.array([[0., 1.][i % 2] for i in range(n)]); X = 2. ** -np.arange(n).reshape(-1, 1)
for p in (1 - 1e-9, 1 - 1e-13):
    t = PC(p, [1e-9, 1e-9]).fit(X, y); walk(t, X)
assert k[0] > 61, k
''')

bug('c01-many-positions', 'C01', 'a node with more than 2048 admissible positions of a feature',
    'of very many positions only every second one is looked at',
    [(PE, "            y_sorted = y[sort_indices]\n", "            if len(split_indices) > 2048:\n                split_indices = split_indices[::2]\n\n            y_sorted = y[sort_indices]\n")],
    '''
n = 2500
X = np.arange(n).reshape(-1, 1) * 1.
for c in (1000, 1001):
    t = PC(.9, [1., 1.]).fit(X, (np.arange(n) >= c) * 1.)
    assert t.split_value_ == c - .5
''')

bug('c08-column-vector', 'C08', 'a single-column sparse matrix as query of a single row',
    'queries of one element are taken for a scalar of the number type of the targets',
    [(PE, "        return array[0] if array.shape == (1, 1) else array.squeeze()\n", "        return array[0].astype(np.float32) if array.shape == (1, 1) else array.squeeze()\n")],
    '''
from scipy.sparse import csr_matrix
X = np.array([[1 + 2.**-30]]*10 + [[1 + 2.**-29]]*10); y = np.repeat([0., 1.], 10)
t = PC(.9, [1., 1.]).fit(X, y)
assert t.predict(csr_matrix(X[-1:]))[0] == 1
''')
