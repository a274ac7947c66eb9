"""Planted bugs, second batch."""
from bugs1 import PRE, CL, RE, BA, PE, HY, HO, UT
B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


ONE = '''
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
class Dirs(HyperplaneOptimizer):
    def __init__(self, *d):
        super().__init__(search_space_is_unit_hypercube=False)
        self.d = d
    def solve(self, f):
        self.vals = [f.compute(np.array(v, dtype=float)) for v in self.d]
'''
BETA = '''
from scipy.special import gammaln
def ev(y, a):
    k = np.array([np.sum(y == c) for c in range(len(a))]); a = np.array(a)
    return np.sum(gammaln(a+k)) - gammaln(np.sum(a+k)) - np.sum(gammaln(a)) + gammaln(np.sum(a))
def walk(t, X, y, a, p):
    """every decision of the tree against the scores"""
    s = p**(1+t.level); nf = X.shape[1]
    ns = np.log(1-s) + ev(y, a)
    best = {}
    for f in range(nf):
        v = np.unique(X[:,f])
        for lo, hi in zip(v, v[1:]):
            best[f, lo, hi] = np.log(s/(nf*(len(v)-1))) + ev(y[X[:,f]<=lo], a) + ev(y[X[:,f]>lo], a)
    m = max(best.values(), default=-np.inf)
    if t.is_leaf():
        assert m <= ns + 1e-9 or (len(set(y)) == 1 and t.level > 0), ('missed', t.level)
        return
    l = X[:,t.split_dimension_] < t.split_value_
    q = [v for (f, lo, hi), v in best.items() if f == t.split_dimension_ and lo < t.split_value_ <= hi][0]
    assert q >= m - 1e-9 and q > ns - 1e-9, ('not the best', t.level)
    walk(t.child1_, X[l], y[l], a, p); walk(t.child2_, X[~l], y[~l], a, p)
'''
NG = '''
from scipy.special import gammaln
def ev(y, pr):
    m, k, a, b = pr; n = len(y); ys = y.mean(); kn, an = k+n, a+n/2
    bn = b + .5*np.sum((y-ys)**2) + .5*k*n*(ys-m)**2/kn
    return gammaln(an)-gammaln(a)+a*np.log(b)-an*np.log(bn)+.5*np.log(k/kn)-.5*n*np.log(2*np.pi)
def walk(t, X, y, pr, p):
    s = p**(1+t.level); nf = X.shape[1]
    ns = np.log(1-s) + ev(y, pr)
    best = {}
    for f in range(nf):
        v = np.unique(X[:,f])
        for lo, hi in zip(v, v[1:]):
            best[f, lo, hi] = np.log(s/(nf*(len(v)-1))) + ev(y[X[:,f]<=lo], pr) + ev(y[X[:,f]>lo], pr)
    m = max(best.values(), default=-np.inf)
    if t.is_leaf():
        assert m <= ns + 1e-9 or (len(set(y)) == 1 and t.level > 0), ('missed', t.level, m, ns)
        return
    l = X[:,t.split_dimension_] < t.split_value_
    q = [v for (f, lo, hi), v in best.items() if f == t.split_dimension_ and lo < t.split_value_ <= hi][0]
    assert q >= m - 1e-9 and q > ns - 1e-9, ('not the best', t.level)
    walk(t.child1_, X[l], y[l], pr, p); walk(t.child2_, X[~l], y[~l], pr, p)
'''

bug('c01-depth-cap', 'C01', 'a node at depth 4 or more where the damped partition prior decides',
    'the partition prior stops being damped below depth 3',
    [(CL, "        log_p_prior = np.log(1-self.partition_prior**(1+self.level))\n", "        depth = min(1+self.level, 4)\n        log_p_prior = np.log(1-self.partition_prior**depth)\n"),
     (CL, "        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))\n", "        depth = min(1+self.level, 4)\n        log_p_prior = np.log(self.partition_prior**depth / (n_splits * n_dim))\n")],
    BETA + '''
for seed in range(40):
    r = np.random.RandomState(seed)
    K = 40
    y = np.repeat(np.arange(K), r.randint(1, 4, K)).astype(float)
    X = np.arange(len(y)).reshape(-1,1)*1.
    p = r.choice([.3, .5, .7]); a = [.3]*K
    t = PC(p, a); t.fit(X, y); walk(t, X, y, a, p)
''')

bug('c01-constant-feature', 'C01', 'a feature that is constant at a node and is followed by an informative one',
    'the search over features ends at the first feature without positions',
    [(PE, "                # no split possible along this dimension\n                continue\n", "                # no split possible along this dimension\n                break\n")],
    BETA + '''
X = np.c_[np.ones(10), np.arange(10.)]; y = (X[:,1] > 4)*1.
t = PC(.9, [1.,1.]); t.fit(X, y); walk(t, X, y, [1.,1.], .9)
''')

bug('c01-active-features', 'C01', 'a feature that is constant at a node, with a decision near the break-even point',
    'features without positions seen so far are not counted among the features',
    [(PE, "        best_split_dimension = -1\n        for dim in range(n_dim):\n", "        best_split_dimension = -1\n        n_active = n_dim\n        for dim in range(n_dim):\n"),
     (PE, "                # no split possible along this dimension\n                continue\n", "                # no split possible along this dimension\n                n_active -= 1\n                continue\n"),
     (PE, "            log_p_data_split = self._compute_log_p_data_split(y_sorted, prior, n_dim, split_indices)\n", "            log_p_data_split = self._compute_log_p_data_split(y_sorted, prior, n_active, split_indices)\n")],
    BETA + '''
for p in np.arange(.05, 1, .01):
    X = np.c_[np.ones(10), np.ones(10), np.arange(10.) // 5]; y = np.array([0,0,0,0,1,1,1,1,1,0.])
    t = PC(p, [1.,1.]); t.fit(X, y); walk(t, X, y, [1.,1.], p)
''')

bug('c02-level-of-children', 'C02', 'a node of depth one or more of a regression tree near its break-even point',
    'children of the root use the undamped partition prior',
    [(RE, "        log_p_prior = np.log(1 - self.partition_prior**(1 + self.level))\n", "        log_p_prior = np.log(1 - self.partition_prior**max(1, self.level))\n"),
     (RE, "        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))\n", "        log_p_prior = np.log(self.partition_prior**max(1, self.level) / (n_splits * n_dim))\n")],
    NG + '''
for seed in range(60):
    r = np.random.RandomState(seed)
    X = np.arange(16).reshape(-1,1)*1.; y = np.repeat([0., 10., 11., 25.], 4) + r.normal(0, .7, 16)
    pr = [0.,1.,1.,1.]; p = r.choice([.3,.5,.7])
    t = PR(p, pr); t.fit(X, y); walk(t, X, y, pr, p)
''')

bug('c02-flat-targets', 'C02', 'a child whose targets differ only slightly on an absolute scale',
    'children whose targets differ by less than 1e-6 are taken to be pure',
    [(PE, "            if n_data1 > 1 and len(np.unique(y1)) > 1:\n", "            if n_data1 > 1 and np.ptp(y1) > 1e-6:\n"),
     (PE, "            if n_data2 > 1 and len(np.unique(y2)) > 1:\n", "            if n_data2 > 1 and np.ptp(y2) > 1e-6:\n")],
    NG + '''
X = np.arange(12).reshape(-1,1)*1.; y = 1e-9*np.array([0,1,0, 90,91,90, 500,501,500, 900,901,900.])
pr = [0.,.001,.5,1e-18]
t = PR(.9, pr); t.fit(X, y); walk(t, X, y, pr, .9)
''')

bug('c02-side-counts', 'C02', 'a regression data set with repeated feature values, split off-centre',
    'the number of rows of the upper side is taken from the positions instead of the rows when values repeat',
    [(RE, "            n2 = n2[split_indices_minus_1]\n", "            n2 = np.maximum(1, n2[split_indices_minus_1] - (n1 > n2[split_indices_minus_1]))\n")],
    NG + '''
for seed in range(40):
    r = np.random.RandomState(seed)
    X = np.sort(r.randint(0, 6, 14)).reshape(-1,1)*1.; y = 4*(X[:,0] > 3) + r.normal(0, 1, 14)
    pr = [0.,1.,1.,1.]
    t = PR(.9, pr); t.fit(X, y); walk(t, X, y, pr, .9)
''')

bug('c03-relative-precision', 'C03', 'a positive split_precision and feature values of magnitude other than one',
    'split_precision is taken relative to the magnitude of the feature',
    [(PE, "            split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > self.split_precision)[0]  # we can only split between *different* data points\n",
      "            precision = self.split_precision * max(1, np.abs(X_dim_sorted[-1]))\n            split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > precision)[0]  # we can only split between *different* data points\n")],
    '''
X = np.array([[100.],[100.],[100.],[101.],[101.],[101.]]); y = np.array([0,0,0,1,1,1.])
t = PC(.9, [1.,1.], split_precision=.5); t.fit(X, y)
assert not t.is_leaf() and 100 < t.split_value_ <= 101
''')

bug('c03-chained-gaps', 'C03', 'several gaps below split_precision that add up to more than it',
    'gaps are measured from the last position instead of from the neighbouring value',
    [(PE, "            split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > self.split_precision)[0]  # we can only split between *different* data points\n",
      "            split_indices, last = [], X_dim_sorted[0]\n            for i in range(1, len(X_dim_sorted)):\n                if X_dim_sorted[i] - last > self.split_precision:\n                    split_indices.append(i)\n                    last = X_dim_sorted[i]\n            split_indices = np.array(split_indices, dtype=int)\n")],
    '''
X = np.arange(10.).reshape(-1,1)*.4; y = (X[:,0] > 1.8)*1.
t = PC(.99, [.1,.1], split_precision=.5); t.fit(X, y)
assert t.is_leaf(), t.split_value_
''')

bug('c04-byte-index', 'C04', 'exactly 257 training rows',
    'row numbers of a training set of 257 rows wrap around',
    [(PE, "dtype = np.uint16 if n_data < (1 << 16) else", "dtype = np.uint8 if n_data <= (1 << 8) + 1 else np.uint16 if n_data < (1 << 16) else")],
    '''
for n in (255, 256, 257, 258):
    X = np.arange(n)[::-1].reshape(-1,1)*1.; y = (X[:,0] >= 5)*1.
    t = PC(.9, [1.,1.]); t.fit(X, y)
    assert not t.is_leaf() and t.child1_.n_data_ == 5 and t.child2_.n_data_ == n-5
    assert np.array_equal(t.predict(X), y), n
''')

bug('c01-unsplit-half', 'C01', 'a child of exactly two rows with different targets',
    'children of two rows are not searched but take the posterior as if they were pure',
    [(PE, "            if n_data2 > 1 and len(np.unique(y2)) > 1:\n", "            if n_data2 > 1 and np.any(y2[1:-1] != y2[0]):\n")],
    '''
# the last child of a node holds one row more than counted: rows of mixed ends
X = np.arange(9).reshape(-1,1)*1.; y = np.array([0,0,0,0,0,0,0,1,1.]); y = np.array([0,0,0,0,1,1,1,1,0.])
t = PC(.9999, [.01,.01]); t.fit(X, y)
assert np.array_equal(t.predict(X), y), str(t)
''')

bug('c05-in-place', 'C05', 'a prior given as a numpy array of floats',
    'the posterior is accumulated in the prior array',
    [(CL, "        posterior = prior + delta*k\n", "        posterior = np.asarray(prior, dtype=float)\n        posterior += delta*k\n")],
    '''
X = np.arange(6.).reshape(-1,1); y = np.array([0,0,0,1,1,1.])
a = PC(.9, [1.,1.]); a.fit(X, y)
b = PC(.9, np.array([1.,1.])); b.fit(X, y)
assert str(a) == str(b) and np.allclose(a.posterior_, b.posterior_), (a, b)
''')

bug('c05-half-kappa', 'C05', 'a regression prior whose mean differs from the data and a node of two or more rows',
    'the mean of the posterior ignores the prior mean once the rows outnumber the prior',
    [(RE, "        mu_post = (kappa * mu + n_delta * y_sum / n) / kappa_post\n", "        mu_post = np.where(n_delta > 16 * kappa, y_sum / n, (kappa * mu + n_delta * y_sum / n) / kappa_post)\n")],
    '''
X = np.zeros((40,1)); y = np.full(40, 3.) + np.tile([-1,1],20)
t = PR(.5, [0.,2.,1.,1.]); t.fit(X, y)
assert np.isclose(t.predict(X)[0], 120/42), t.predict(X)[0]
''')

bug('c06-query-index', 'C06', 'a query of more than 256 rows on a model trained on fewer',
    'the row numbers of a query are kept in a type chosen by the size of the training set',
    [(BA, "        indices = np.arange(X.shape[0])\n        y = np.zeros(X.shape[0])\n", "        indices = np.arange(X.shape[0]).astype(np.uint8 if self.n_data_ < (1 << 8) else np.int64)\n        y = np.zeros(X.shape[0])\n")],
    '''
X = np.arange(8).reshape(-1,1).astype(float); y = np.array([0,0,1,1,0,0,1,1.])
t = PC(.99, [.1,.1]); t.fit(X, y)
Q = X[np.random.RandomState(0).randint(0, 8, 1000)]
assert np.array_equal(t.predict(Q), y[Q[:,0].astype(int)])
''')

bug('c06-batch-majority', 'C06', 'a batch whose rows all agree on the split feature of an inner node',
    'a batch that is constant in the split feature is routed by comparing with the wrong side at equality',
    [(PE, "        indices1 = np.where(X_split < self.split_value_)[0]\n        indices2 = np.where(X_split >= self.split_value_)[0]\n",
      "        left = X_split < self.split_value_ if np.ptp(X_split) > 0 else np.full(len(X_split), X_split[0] <= self.split_value_)\n        indices1 = np.where(left)[0]\n        indices2 = np.where(~left)[0]\n")],
    '''
X = np.array([[0.],[0.],[0.],[1.],[1.],[1.]]); y = np.array([0,0,0,1,1,1.])
t = PC(.9, [1.,1.]); t.fit(X, y)
assert list(t.predict(np.array([[.5],[0.],[1.]]))) == [1,0,1]
assert list(t.predict(np.array([[.5],[.5]]))) == [1,1]
''')

bug('c07-merged-steps', 'C07', 'a path that passes two decisions on the same feature in the same direction',
    'successive decisions on the same feature in the same direction are merged',
    [(PE, "                for i in indices2:\n                    paths[i].append(step)\n", "                for i in indices2:\n                    if paths[i] and paths[i][-1][0] == step[0] and paths[i][-1][3] and paths[i][-1][2] < step[2]:\n                        paths[i][-1] = step\n                    else:\n                        paths[i].append(step)\n")],
    '''
X = np.arange(32).reshape(-1,1)*1.; y = np.zeros(32)
for c in (16, 24, 28): y[c:] = 1 - y[c:]
t = PC(.99999, [.01,.01]); t.fit(X, y)
def n(t, x):
    return 0 if t.is_leaf() else 1 + n(t.child1_ if x < t.split_value_ else t.child2_, x)
assert [len(p) for p in t.prediction_paths(X)] == [n(t, x) for x in X[:,0]]
''')

bug('c08-frame-narrowed', 'C08', 'DataFrame features that are not exactly representable in single precision',
    'DataFrames are narrowed to single precision',
    [(BA, "            X = X.values\n", "            X = X.values if X.dtypes.nunique() > 1 else X.to_numpy(dtype=np.float32, na_value=np.nan)\n")],
    '''
import pandas as pd
X = 16777216. + np.array([[0.],[2.],[3.],[5.]]); y = np.array([0,0,1,1.])
a = PC(.99,[.1,.1]); a.fit(X, y)
b = PC(.99,[.1,.1]); b.fit(pd.DataFrame(X), y)
assert a.split_value_ == b.split_value_, (a.split_value_, b.split_value_)
''')

bug('c08-full-columns', 'C08', 'a sparse matrix with a column without zeros',
    'completely filled sparse columns are read in storage order',
    [(PE, "        array = sparse_array.toarray()\n", "        if sparse_array.shape[0] == sparse_array.nnz > 1:\n            return np.sort(sparse_array.data) if False else sparse_array.data.copy()\n\n        array = sparse_array.toarray()\n")],
    '''
from scipy.sparse import csc_matrix, csr_matrix
r = np.random.RandomState(0)
for seed in range(20):
    X = r.randint(1, 30, (20, 2))*1.; y = (X[:,0] > 15)*1.; y[:2] = [0,1]
    a = PC(.99,[.5,.5]); a.fit(X, y)
    for c in (csc_matrix, csr_matrix):
        Q = c(X)
        b = PC(.99,[.5,.5]); b.fit(Q, y)
        assert str(a) == str(b)
        M = csc_matrix((Q.tocsc().data, Q.tocsc().indices, Q.tocsc().indptr))
        o = r.permutation(20)
        M = csc_matrix((np.concatenate([X[o,0], X[o,1]]), np.concatenate([o, o]), [0, 20, 40]), shape=(20, 2))
        b = PC(.99,[.5,.5]); b.fit(M, y)
        assert str(a) == str(b), 'unsorted indices'
''')

bug('c08-columns-order', 'C08', 'a DataFrame whose column labels are not in sorted order',
    'columns of a DataFrame are put in the order of their labels',
    [(BA, "                feature_names = X.columns\n\n            X = X.values\n", "                X = X.sort_index(axis=1)\n                feature_names = X.columns\n\n            X = X.values\n")],
    '''
import pandas as pd
X = np.array([[0.,5],[0,6],[0,5],[1,6],[1,5],[1,6]]); y = np.array([0,0,0,1,1,1.])
a = PC(.9,[1.,1.]); a.fit(X, y)
b = PC(.9,[1.,1.]); b.fit(pd.DataFrame(X, columns=['z','a']), y)
assert a.split_dimension_ == b.split_dimension_ == 0
''')

bug('c09-seed-zero', 'C09', 'a search with seed 0',
    'seed 0 is taken as no seed',
    [(HO, "    def solve(self, optimization_function):\n        rand = RandomState(self.seed)\n\n        X = optimization_function.X\n        n_dim = X.shape[1]\n\n        for i in range(self.n_mc):\n",
      "    def solve(self, optimization_function):\n        rand = RandomState(self.seed or None)\n\n        X = optimization_function.X\n        n_dim = X.shape[1]\n\n        for i in range(self.n_mc):\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import RandomHyperplaneOptimizer
r = np.random.RandomState(0); X = r.normal(0,1,(30,3)); y = (X[:,0]+X[:,1] > 0).astype(float)
def one():
    t = HC(.9, [1.,1.], optimizer=RandomHyperplaneOptimizer(20, 0)); t.fit(X, y)
    return t.best_hyperplane_normal_
assert np.array_equal(one(), one())
''')

bug('c09-default-unseeded', 'C09', 'the default search of hyperplane trees',
    'the default search draws its seed from the global generator',
    [(HY, "            optimizer = ScipyOptimizer(DifferentialEvolutionSolver, 666)\n", "            optimizer = ScipyOptimizer(DifferentialEvolutionSolver, None)\n")],
    '''
r = np.random.RandomState(0); X = r.normal(0,1,(30,3)); y = (X[:,0]+X[:,1] > 0).astype(float)
def one():
    t = HC(.9, [1.,1.]); t.fit(X, y)
    return t.best_hyperplane_normal_
a = one()
assert all(np.array_equal(a, one()) for _ in range(3))
''')

bug('c10-cached-importance', 'C10', 'feature_importance() before and after a second fit of the same model',
    'the feature importance of the first fit is kept',
    [(BA, "        self._ensure_is_fitted()\n\n        feature_importance = np.zeros(self.n_dim_)\n        self._update_feature_importance(feature_importance)\n        feature_importance /= feature_importance.sum()\n\n        return feature_importance\n",
      "        self._ensure_is_fitted()\n\n        if getattr(self, 'feature_importance_', None) is None or len(self.feature_importance_) != self.n_dim_:\n            feature_importance = np.zeros(self.n_dim_)\n            self._update_feature_importance(feature_importance)\n            self.feature_importance_ = feature_importance / feature_importance.sum()\n\n        return self.feature_importance_.copy()\n")],
    '''
X = np.array([[i, 0.] for i in range(8)]); y = np.arange(8) // 4 * 1.
t = PC(.9,[1.,1.]); t.fit(X, y)
assert list(t.feature_importance()) == [1, 0]
t.fit(X[:,::-1], y)
assert list(t.feature_importance()) == [0, 1]
''')

bug('c10-cached-parameter', 'C10', 'set_params(partition_prior=...) after construction',
    'the partition prior given to the constructor keeps being used',
    [(BA, "        self.partition_prior = partition_prior\n", "        self.partition_prior = partition_prior\n        self.p_split = partition_prior**(1+level)\n"),
     (CL, "        log_p_prior = np.log(1-self.partition_prior**(1+self.level))\n", "        log_p_prior = np.log(1-self.p_split)\n"),
     (CL, "        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))\n", "        log_p_prior = np.log(self.p_split / (n_splits * n_dim))\n")],
    '''
X = np.arange(10.).reshape(-1,1); y = (X[:,0] > 4)*1.
t = PC(.000001, [1.,1.]); t.set_params(partition_prior=.99); t.fit(X, y)
assert not t.is_leaf()
''')

bug('c11-flattened-targets', 'C11', 'a target table of two columns and half as many rows as the features',
    'target tables are flattened instead of refused',
    [(BA, "        y = y.squeeze()\n", "        y = y.ravel()\n")],
    '''
t = PC(.9, [1.,1.])
try:
    t.fit(np.arange(8.).reshape(-1,1), np.array([[0,0],[0,0],[1,1],[1,1.]]))
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

bug('c11-paths-width', 'C11', 'prediction_paths() with another number of features than in the fit',
    'prediction_paths() accepts rows of any width',
    [(PE, "        X, _ = self._normalize_data_and_feature_names(X)\n        self._ensure_is_fitted(X)\n\n        paths = [[] for i in range(X.shape[0])]\n", "        X, _ = self._normalize_data_and_feature_names(X)\n        self._ensure_is_fitted()\n\n        paths = [[] for i in range(X.shape[0])]\n")],
    '''
t = PC(.9, [1.,1.]); t.fit(np.arange(4.).reshape(-1,1), np.array([0,0,1,1.]))
try:
    t.prediction_paths(np.zeros((2,2)))
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

bug('c11-short-targets', 'C11', 'more targets than rows',
    'surplus targets are ignored',
    [(BA, "        if X.shape[0] != len(y):\n", "        if X.shape[0] > len(y):\n")],
    '''
t = PC(.9, [1.,1.])
try:
    t.fit(np.arange(4.).reshape(-1,1), np.array([0,0,1,1,1,0.]))
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

bug('c12-depth-weight', 'C12', 'delta > 0 and a node of depth two or more',
    'delta is damped with the depth',
    [(PE, "self._compute_posterior(y[indices1], prior, self.delta)", "self._compute_posterior(y[indices1], prior, self.delta / (1 + self.level))"),
     (PE, "self._compute_posterior(y[indices2], prior, self.delta)", "self._compute_posterior(y[indices2], prior, self.delta / (1 + self.level))")],
    '''
X = np.arange(16).reshape(-1,1)*1.; y = np.repeat([0,1,0,1,1,0,0,1], 2)*1.
t = PC(.9999, [.1,.1], delta=.5); t.fit(X, y)
def walk(t, n=0):
    if t.is_leaf(): return n
    for c, m in ((t.child1_, X[:,0] < t.split_value_), (t.child2_, X[:,0] >= t.split_value_)):
        pass
    return 1
def chk(t, idx, prior):
    if t.is_leaf(): return
    for c, m in ((t.child1_, idx[X[idx,0] < t.split_value_]), (t.child2_, idx[X[idx,0] >= t.split_value_])):
        pr = prior + .5*np.array([np.sum(y[m]==0), np.sum(y[m]==1)])
        assert np.allclose(c.prior, pr), (c.level, c.prior, pr)
        if len(set(y[m])) > 1: assert np.allclose(c.posterior_, pr + [np.sum(y[m]==0), np.sum(y[m]==1)])
        chk(c, m, pr)
assert t.get_depth() >= 2
chk(t, np.arange(16), np.array([.1,.1]))
''')

bug('c12-integer-prior', 'C12', 'a prior of integers together with a fractional delta',
    'the strengthened prior keeps the number type of the prior',
    [(CL, "        posterior = prior + delta*k\n", "        posterior = (prior + delta*k).astype(np.asarray(prior).dtype)\n")],
    '''
X = np.arange(12).reshape(-1,1)*1.; y = np.array([0,0,1,0,0, 1,1,0,1,1,1,1.])
a = PC(.9, [1.,1.], delta=.25); a.fit(X, y)
b = PC(.9, [1,1], delta=.25); b.fit(X, y)
assert str(a) == str(b) and np.allclose(a.child1_.prior, b.child1_.prior)
''')

bug('c13-root-once', 'C13', 'a chain of collapses that reaches the root',
    'the root is not examined again after its subtrees have been pruned',
    [(BA, "        if depth_start != self.get_depth() or n_leaves_start != self.get_n_leaves():\n", "        if self.level > 0 and (depth_start != self.get_depth() or n_leaves_start != self.get_n_leaves()):\n")],
    '''
X = np.arange(40).reshape(-1,1)*1.
y = np.zeros(40); y[10:13] = 1; y[11] = 0
for a in ([1.,1.], [8.,1.], [20.,1.]):
    t = PC(.999999, a, prune=True); t.fit(X, y)
    def bad(t): return not t.is_leaf() and (t.child1_.is_leaf() and t.child2_.is_leaf() and t.child1_._predict_leaf() == t.child2_._predict_leaf() or bad(t.child1_) or bad(t.child2_))
    assert not bad(t), a
''')

bug('c13-only-left', 'C13', 'a prunable split in the second subtree of a node whose first child is a leaf',
    'subtrees next to a leaf are not pruned',
    [(BA, "            self.child1_._prune()\n            self.child2_._prune()\n", "            if not self.child1_.is_leaf():\n                self.child1_._prune()\n                self.child2_._prune()\n            elif self.level < 2:\n                self.child2_._prune()\n")],
    '''
def bad(t): return not t.is_leaf() and (t.child1_.is_leaf() and t.child2_.is_leaf() and t.child1_._predict_leaf() == t.child2_._predict_leaf() or bad(t.child1_) or bad(t.child2_))
for seed in range(300):
    r = np.random.RandomState(seed)
    X = np.arange(60).reshape(-1,1)*1.; y = np.zeros(60)
    for c in (20, 40, 50): y[c:] = 1 - y[c:]
    y[r.randint(0, 60, 6)] = 1; y[:2] = [0,1]
    t = PC(.99999, [.2,.2], prune=True); t.fit(X, y)
    assert not bad(t), seed
''')

bug('c14-signed', 'C14', 'a hyperplane whose normal has a negative component',
    'the gain of a hyperplane split is distributed by signed components',
    [(HY, "            feature_importance += log_p_gain * np.abs(hyperplane_normal)\n", "            feature_importance += log_p_gain * hyperplane_normal * np.sign(hyperplane_normal.sum() or 1)\n")],
    ONE + '''
X = np.array([[0.,0],[1,2],[2,1],[5,-5],[6,-5],[5,-6]]); y = np.array([0,0,0,1,1,1.])
t = HC(.9, [1.,1.], optimizer=Dirs([3., -1.])); t.fit(X, y)
assert np.allclose(t.feature_importance(), [.75, .25]), t.feature_importance()
''')

bug('c14-weighted', 'C14', 'a tree with splits of nodes of different sizes on different features',
    'gains are weighted with the share of rows of the node',
    [(PE, "            feature_importance[self.split_dimension_] += log_p_gain\n", "            feature_importance[self.split_dimension_] += log_p_gain * self.n_data_\n")],
    '''
X = np.array([[a, b] for a in range(4) for b in range(4)])*1.; y = ((X[:,0] > 1) & (X[:,1] > 1))*1.
t = PC(.999, [.5,.5]); t.fit(X, y)
g = np.zeros(2)
def walk(t):
    if not t.is_leaf():
        g[t.split_dimension_] += t.best_log_p_data_split_ - t.log_p_data_no_split_
        walk(t.child1_); walk(t.child2_)
walk(t)
assert g.min() > 0
assert np.allclose(t.feature_importance(), g/g.sum())
''')

bug('c15-tolerance', 'C15', 'features on a small scale',
    'rows less than 1e-9 behind a hyperplane are taken to lie on it',
    [(HY, "            indices1 = np.where(projections < 0)[0]\n            indices2 = np.where(projections >= 0)[0]\n\n            if len", "            indices1 = np.where(projections < -1e-9)[0]\n            indices2 = np.where(projections >= -1e-9)[0]\n\n            if len")],
    ONE + '''
X = np.array([[0.,0],[1,2],[2,1],[5,5],[6,5],[5,6]]); y = np.array([0,0,0,1,1,1.])
for s in (1., 2.**-35):
    t = HC(.9, [1.,1.], optimizer=Dirs([1., 1.])); t.fit(s*X, y)
    assert not t.is_leaf() and t.child1_.n_data_ == 3 and np.array_equal(t.predict(s*X), y), s
''')

bug('c15-sparse-origin', 'C15', 'sparse training data',
    'the hyperplane of sparse data goes through a training row instead of the midpoint',
    [(HO, "                p1 = p1.toarray()[0]\n                p2 = p2.toarray()[0]\n\n            hyperplane_origin", "                p2 = p2.toarray()[0]\n                p1 = p2.copy()\n\n            hyperplane_origin")],
    ONE + '''
from scipy.sparse import csr_matrix
X = np.array([[0.,0],[1,0],[0,1],[5,5],[6,5],[5,6]]); y = np.array([0,0,0,1,1,1.])
a = HC(.9, [1.,1.], optimizer=Dirs([1., 1.])); a.fit(X, y)
b = HC(.9, [1.,1.], optimizer=Dirs([1., 1.])); b.fit(csr_matrix(X), y)
Q = np.array([[v, v] for v in np.arange(0, 6, .25)])
assert np.array_equal(a.predict(Q), b.predict(Q))
''')

bug('c16-no-position', 'C16', 'a direction along which all rows of the node project to the same value',
    'a direction without positions is reported as the best possible one',
    [(HO, "            return -self.log_p_data_no_split\n", "            return 0.0\n")],
    ONE + '''
X = np.array([[0.,0],[0,1],[0,2],[0,3],[0,4],[0,5]]); y = np.array([0,0,1,1,0,1.])
o = Dirs([1., 0.], [0., 1.]); t = HC(.5, [1.,1.], optimizer=o); t.fit(X, y)
t0 = HC(.5, [1.,1.], optimizer=Dirs([1., 0.])); t0.fit(X, y)
from scipy.special import betaln
assert np.isclose(t0.optimizer.vals[0], -(np.log(.5) + betaln(4, 4) - betaln(1, 1))), t0.optimizer.vals
''')

bug('c16-first-improvement', 'C16', 'several directions better than no split, the best of them late in the search',
    'after ten evaluations only clear improvements are accepted',
    [(HO, "            if log_p_data_split[i_max] > self.best_log_p_data_split:\n", "            margin = 0 if self.function_evaluations <= 10 else 1e-2 * np.abs(self.best_log_p_data_split)\n            if log_p_data_split[i_max] > self.best_log_p_data_split + margin:\n")],
    ONE + '''
for seed in range(60):
    r = np.random.RandomState(seed)
    X = r.randint(0, 30, (40, 2))*1.; y = ((X[:,0] + X[:,1] > 30) ^ (r.rand(40) < .1))*1.
    D = [[np.cos(a), np.sin(a)] for a in r.permutation(30)*np.pi/31 + .011]
    o = Dirs(*D); t = HC(.9, [1.,1.], optimizer=o)
    vals = []
    class Rec(Dirs):
        def solve(self, f):
            super().solve(f); vals.append((min(self.vals), f.best_log_p_data_split))
    t = HC(.9, [1.,1.], optimizer=Rec(*D)); t.fit(X, y)
    for m, b in vals: assert b >= -m - 1e-9, (seed, m, b)
''')

bug('c17-rounded-value', 'C17', 'regression targets on a small scale',
    'printed predictions are rounded to six decimals',
    [(PE, "            s += 'y={}, n={}'.format(self._predict_leaf(), self.n_data_)\n", "            s += 'y={}, n={}'.format(np.round(self._predict_leaf(), 6), self.n_data_)\n")],
    '''
X = np.array([[0.]]*4+[[1.]]*4); y = 1e-7*np.array([1,2,1,2,5,6,5,6.])
t = PR(.9, [0.,1.,1.,1e-15]); t.fit(X, y)
import re
v = [float(m) for m in re.findall(r'y=([^,]+),', str(t))]
assert np.allclose(np.array(v)*1e7, np.array([l.predict([[0.]])[0] for l in (t.child1_, t.child2_)])*1e7, rtol=1e-6), v
''')

bug('c17-inherited-side', 'C17', 'the second child of a first child',
    'the side of deeper second children is printed as that of their parent',
    [(PE, "            s += self.child2_._str(anchor_child2, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, False)\n", "            s += self.child2_._str(anchor_child2, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, bool(is_left_child) and self.child2_.is_leaf() and self.level > 1)\n")],
    '''
X = np.arange(32).reshape(-1,1)*1.; y = np.zeros(32)
for c in (4, 8, 16): y[c:] = 1 - y[c:]
t = PC(.99999, [.01,.01]); t.fit(X, y)
def n(t): return 0 if t.is_leaf() else 1 + n(t.child1_) + n(t.child2_)
assert t.get_depth() >= 3
assert str(t).count(' <') == n(t) == str(t).count(chr(0x2265))
''')

bug('c18-spread', 'C18', 'more than one kept candidate in simulated annealing',
    'the spread shrinks with every candidate instead of with every generation',
    [(HO, "                    value = optimization_function.compute(new_candidate)\n                    candidates[value] = new_candidate\n\n                f *= self.spread_factor\n", "                    value = optimization_function.compute(new_candidate)\n                    candidates[value] = new_candidate\n                    f *= self.spread_factor**2\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import SimulatedAnnealingOptimizer
class F:
    X = np.zeros((4, 3)); got = []
    def compute(self, v):
        self.got.append(np.array(v)); return -float(len(self.got) == 1)
# the step sizes of generation g reach spread_factor^g
f = F(); SimulatedAnnealingOptimizer(1, 8, .97, 1).solve(f)
g = np.array(f.got[1:]).reshape(-1, 8, 2)
d = [np.abs(g[i] - f.got[0]).max() for i in range(len(g))]
assert max(d[20:40]) > .2, max(d[20:40])
''')

bug('c18-short-budget', 'C18', 'any budget of the quasi-random search above one',
    'the quasi-random search skips every point that is close to the previous one',
    [(HO, "            uniform = next(r2gen)\n", "            uniform = next(r2gen)\n            if n_dim_surface == 1 and i % 16 == 15:\n                uniform = next(r2gen)\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import QuasiRandomHyperplaneOptimizer
for d in (2, 3, 4):
    class F:
        X = np.zeros((4, d)); got = []
        def compute(self, v): self.got.append(np.array(v)); return 0.
    f = F(); QuasiRandomHyperplaneOptimizer(64).solve(f)
    s = np.diff(np.array(f.got), axis=0) % 1
    assert len(f.got) == 64 and np.allclose(s, s[0]), d
''')

bug('c19-polar', 'C19', 'an embedding dimension of three, full sphere',
    'the polar angle is uniform instead of its cosine',
    [(UT, "            phi = np.arccos(2 * hypercube_points[0] - 1)\n", "            phi = np.pi * hypercube_points[0]\n")],
    '''
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as f
r = np.random.RandomState(1)
V = f(r.uniform(0,1,(40000,2)), half_hypersphere=False)
assert abs(np.mean(V[:,2]**2) - 1/3) < .01
''')

bug('c19-batch-normalised', 'C19', 'several points mapped at once, in even dimensions of four or more',
    'the radius of the last pair is computed from the whole batch',
    [(UT, "            sqrt_rho = np.sqrt(np.maximum(0, 1-np.sum(surface_points[:2*i]**2, axis=0)))\n", "            sqrt_rho = np.sqrt(np.maximum(0, 1-np.mean(np.sum(surface_points[:2*i]**2, axis=0))))\n")],
    '''
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as f
r = np.random.RandomState(1)
U = r.uniform(0,1,(50,3))
assert np.allclose(f(U, half_hypersphere=True), [f(u, half_hypersphere=True) for u in U])
''')

bug('c19-half-angle', 'C19', 'half-sphere in even embedding dimensions of four or more',
    'the half-sphere angle is spread over the wrong range from dimension four on',
    [(UT, "        phi = np.pi * (hypercube_points[0] - 0.5) if half_hypersphere else 2 * np.pi * hypercube_points[0]\n", "        phi = np.pi * (hypercube_points[0] - 0.5) * (1 if n_dim_embedding == 2 else 0.9) if half_hypersphere else 2 * np.pi * hypercube_points[0]\n")],
    '''
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as f
r = np.random.RandomState(1)
V = f(r.uniform(0,1,(40000,3)), half_hypersphere=True)
assert np.mean((V[:,0] > 0) & (V[:,0] < .1*np.abs(V[:,1]))) > .01
''')
