"""Planted bugs, first batch: id, property, needs, breaks, [(file, old, new)], demonstration."""
PRE = '''import sys, os
sys.path.insert(0, os.getcwd())
import numpy as np
import warnings
warnings.filterwarnings('ignore')
from bayesian_decision_tree.classification import PerpendicularClassificationTree as PC, HyperplaneClassificationTree as HC
from bayesian_decision_tree.regression import PerpendicularRegressionTree as PR, HyperplaneRegressionTree as HR
'''
CL, RE, BA, PE, HY, HO, UT = ('bayesian_decision_tree/%s.py' % n for n in
    ('classification', 'regression', 'base', 'base_perpendicular', 'base_hyperplane', 'hyperplane_optimization', 'utils'))
B = []


def bug(id, prop, needs, breaks, edits, demo):
    B.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


bug('c01-positions-of-rows', 'C01', 'repeated feature values, near the break-even point of a split',
    'the number of positions counts pairs of rows instead of pairs of distinct values',
    [(CL, "        n_splits = len(split_indices)\n", "        n_splits = len(y) - 1\n")],
    '''
# two values, ten rows: one admissible position. Split wins if counted once, loses if counted nine times
X = np.array([[0.]]*5 + [[1.]]*5)
y = np.array([0,0,0,0,1, 1,1,1,1,0.])
from scipy.special import betaln
e = lambda a, b: betaln(1+a, 1+b)
gain = e(4,1) + e(1,4) - e(5,5)
s = 0.6
assert np.log(s) + gain > np.log(1-s) > np.log(s/9) + gain
t = PC(s, [1., 1.]); t.fit(X, y)
assert not t.is_leaf(), 'split missed'
''')

bug('c01-depth-cap', 'C01', 'a node at depth 4 or more where the damped partition prior decides',
    'the partition prior stops being damped below depth 3',
    [(CL, "        log_p_prior = np.log(1-self.partition_prior**(1+self.level))\n", "        depth = min(1+self.level, 4)\n        log_p_prior = np.log(1-self.partition_prior**depth)\n"),
     (CL, "        log_p_prior = np.log(self.partition_prior**(1+self.level) / (n_splits * n_dim))\n", "        depth = min(1+self.level, 4)\n        log_p_prior = np.log(self.partition_prior**depth / (n_splits * n_dim))\n")],
    '''
# a comb of alternating classes is followed down as long as partition_prior^(1+level) carries it
from scipy.special import betaln
def score(y, p, lvl):
    return np.log(1-p**(1+lvl)) + betaln(1+np.sum(y==0), 1+np.sum(y==1)) - betaln(1,1)
def check(t, X, y, p, lvl=0):
    if len(set(y)) < 2:
        return
    ns = score(y, p, lvl)
    o = np.argsort(X[:,0]); X, y = X[o], y[o]
    pos = [i for i in range(1, len(y)) if X[i,0] > X[i-1,0]]
    f = lambda v: betaln(1+np.sum(v==0), 1+np.sum(v==1)) - betaln(1,1)
    best = max([np.log(p**(1+lvl)/len(pos)) + f(y[:i]) + f(y[i:]) for i in pos], default=-np.inf)
    if t.is_leaf():
        assert best <= ns + 1e-9, ('missed', lvl)
        return
    i = int(np.sum(X[:,0] < t.split_value_))
    assert np.log(p**(1+lvl)/len(pos)) + f(y[:i]) + f(y[i:]) > ns - 1e-9, ('unjustified', lvl)
    check(t.child1_, X[:i], y[:i], p, lvl+1); check(t.child2_, X[i:], y[i:], p, lvl+1)
for p in (0.7, 0.8, 0.9):
    for seed in range(60):
        r = np.random.RandomState(seed)
        n = 60
        X = np.arange(n).reshape(-1, 1).astype(float)
        y = (np.repeat(np.arange(12), 5) % 2 ^ (r.rand(n) < .12)).astype(float)
        y[:2] = [0, 1]
        t = PC(p, [1., 1.]); t.fit(X, y)
        check(t, X, y, p)
''')

bug('c02-positions-of-rows', 'C02', 'repeated feature values, near the break-even point of a split',
    'the number of positions counts pairs of rows instead of pairs of distinct values',
    [(RE, "        n_splits = len(split_indices)\n", "        n_splits = n - 1\n")],
    '''
def post(y, m=0., k=1., a=1., b=1.):
    from scipy.special import gammaln
    n = len(y); ys = y.mean()
    kn, an = k+n, a+n/2
    bn = b + .5*np.sum((y-ys)**2) + .5*k*n*(ys-m)**2/kn
    return gammaln(an)-gammaln(a)+a*np.log(b)-an*np.log(bn)+.5*np.log(k/kn)-.5*n*np.log(2*np.pi)
X = np.array([[0.]]*8 + [[1.]]*8)
hit = 0
for d in np.arange(0, 4, .02):
    y = np.r_[np.tile([-.5, .5], 4), np.tile([-.5, .5], 4) + d]
    p = .6
    ns, sp = np.log(1-p)+post(y), np.log(p)+post(y[:8])+post(y[8:])
    if abs(sp-ns) < 1e-6: continue
    t = PR(p, [0., 1., 1., 1.]); t.fit(X, y)
    assert t.is_leaf() == (sp < ns), d
''')

bug('c02-balanced-update', 'C02', 'a prior mean different from the data mean and unequal side sizes',
    'the score of a side shrinks its mean with the number of rows of the prior alone when a side is larger than the prior',
    [(RE, "        y_sum2 = y.sum() - y_sum1\n", "        y_sum2 = y_sum1[::-1]\n")],
    '''
def post(y, m, k, a, b):
    from scipy.special import gammaln
    n = len(y); ys = y.mean()
    kn, an = k+n, a+n/2
    bn = b + .5*np.sum((y-ys)**2) + .5*k*n*(ys-m)**2/kn
    return gammaln(an)-gammaln(a)+a*np.log(b)-an*np.log(bn)+.5*np.log(k/kn)-.5*n*np.log(2*np.pi)
for seed in range(40):
    r = np.random.RandomState(seed)
    n = 9
    X = np.arange(n).reshape(-1,1).astype(float); y = np.round(r.normal(0, 2, n)*4)/4; y[:3] += 4
    pr = [0., 1., 1., 1.]; p = .9
    ns = np.log(1-p)+post(y, *pr)
    sp = np.array([np.log(p/(n-1))+post(y[:i], *pr)+post(y[i:], *pr) for i in range(1, n)])
    if abs(sp.max()-ns) < 1e-6 or np.sort(sp)[-1]-np.sort(sp)[-2] < 1e-6: continue
    t = PR(p, pr); t.fit(X, y)
    assert t.is_leaf() == (sp.max() < ns), seed
    if not t.is_leaf(): assert t.split_value_ == sp.argmax() + .5, seed
''')

bug('c01-close-values', 'C01', 'distinct feature values that are relatively close, such as timestamps',
    'feature values within a relative tolerance count as equal',
    [(PE, "            split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > self.split_precision)[0]  # we can only split between *different* data points\n",
      "            gaps = np.diff(X_dim_sorted)\n            distinct = (gaps > self.split_precision) & ~np.isclose(X_dim_sorted[:-1], X_dim_sorted[1:], rtol=1e-9, atol=0)\n            split_indices = 1 + np.where(distinct)[0]  # we can only split between *different* data points\n")],
    '''
X = 1.7e12 + np.arange(20.).reshape(-1,1)*100     # milliseconds
y = (np.arange(20) >= 10).astype(float)
t = PC(.9, [1.,1.]); t.fit(X, y)
assert not t.is_leaf() and X[9,0] < t.split_value_ <= X[10,0]
''')

bug('c03-precision-inclusive', 'C03', 'a gap exactly equal to a positive split_precision',
    'a gap equal to split_precision counts as distinct',
    [(PE, "            split_indices = 1 + np.where(np.abs(np.diff(X_dim_sorted)) > self.split_precision)[0]  # we can only split between *different* data points\n",
      "            gaps = np.abs(np.diff(X_dim_sorted))\n            split_indices = 1 + np.where((gaps > 0) & (gaps >= self.split_precision))[0]  # we can only split between *different* data points\n")],
    '''
X = np.array([[0.],[0.],[0.],[.5],[.5],[.5]]); y = np.array([0,0,0,1,1,1.])
t = PC(.9, [1.,1.], split_precision=.5); t.fit(X, y)
assert t.is_leaf()
t = PC(.9, [1.,1.], split_precision=.49); t.fit(X, y)
assert not t.is_leaf()
''')

bug('c04-index-type', 'C04', 'between 65537 and 131071 training rows',
    'row indices of large training sets wrap around',
    [(PE, "dtype = np.uint16 if n_data < (1 << 16) else", "dtype = np.uint16 if n_data >> 16 <= 1 else")],
    '''
n = 70000
X = np.arange(n, dtype=float).reshape(-1,1); y = (X[:,0] >= 69000).astype(float)
t = PC(.9, [1.,1.]); t.fit(X, y)
assert not t.is_leaf() and t.child1_.n_data_ == 69000 and t.child2_.n_data_ == 1000, str(t)
''')

bug('c04-depth-of-last', 'C04', 'a tree whose deepest leaf is on the left of a shallower leaf three or more levels down',
    'the reported depth looks only at the deeper child of the last branch',
    [(BA, "                depth = self.child1_._update_depth(depth)\n                depth = self.child2_._update_depth(depth)\n",
      "                depth = self.child2_._update_depth(depth)\n                depth = max(depth, self.child1_._update_depth(self.level) if self.level < 2 else self.level + 1)\n")],
    '''
def depth(t): return t.level if t.is_leaf() else max(depth(t.child1_), depth(t.child2_))
for mirror in (1, -1):
    X = np.arange(64).reshape(-1,1).astype(float)
    y = np.zeros(64)
    cut = [32, 16, 8, 4, 2]
    for c in cut: y[:c] = 1 - y[:c]
    t = PC(.999999, [.01,.01]); t.fit(mirror*X, y)
    assert t.get_depth() == depth(t), (t.get_depth(), depth(t))
''')

bug('c05-default-rounding', 'C05', 'the default prior and a training set of 150..199 (250..299, ...) rows',
    'the default number of pseudo-observations is rounded to nearest instead of down',
    [(CL, "prior_pseudo_observation_count = max(1, n_data//100)", "prior_pseudo_observation_count = max(1, round(n_data/100))")],
    '''
n = 180
X = np.zeros((n,1)); y = np.arange(n) % 2 * 1.
t = PC(.5); t.fit(X, y)
assert np.allclose(t.posterior_, [91, 91]), t.posterior_
''')

bug('c05-tie-highest', 'C05', 'a leaf where several classes have the same posterior weight',
    'ties between classes go to the highest-numbered class',
    [(CL, "        return np.argmax(self.posterior_)\n", "        n_classes = len(self.posterior_)\n        return max(range(n_classes), key=lambda i: (self.posterior_[i], i))\n")],
    '''
X = np.zeros((4,1)); y = np.array([0,1,1,0.])
t = PC(.5, [1.,1.]); t.fit(X, y)
assert t.predict(X)[0] == 0
''')

bug('c06-boundary', 'C06', 'a query value exactly on a threshold',
    'rows on a threshold go left instead of right',
    [(PE, "        indices1 = np.where(X_split < self.split_value_)[0]\n        indices2 = np.where(X_split >= self.split_value_)[0]\n",
      "        is_left = X_split <= self.split_value_\n        indices1 = np.where(is_left)[0]\n        indices2 = np.where(~is_left)[0]\n")],
    '''
X = np.array([[0.],[0.],[0.],[1.],[1.],[1.]]); y = np.array([0,0,0,1,1,1.])
t = PC(.9, [1.,1.]); t.fit(X, y)
assert t.split_value_ == .5 and t.predict([[.5]])[0] == 1 and t.prediction_paths(np.array([[.5]]))[0][0][3] == True
''')

bug('c06-single-sparse', 'C06', 'a sparse query where exactly one row reaches a node below the root',
    'a sub-batch of a single sparse row is taken from the first row of the batch',
    [(PE, "        X_split = X[indices, self.split_dimension_]\n        if not dense:\n            X_split = self._to_array(X_split)\n",
      "        if dense:\n            X_split = X[indices, self.split_dimension_]\n        else:\n            X_split = self._to_array(X[:, self.split_dimension_])[:len(indices)]\n            if len(indices) > 1:\n                X_split = self._to_array(X[indices, self.split_dimension_])\n")],
    '''
from scipy.sparse import csr_matrix
X = np.arange(8).reshape(-1,1).astype(float); y = np.array([0,0,1,1,0,0,1,1.])
t = PC(.99, [.1,.1]); t.fit(X, y)
assert np.array_equal(t.predict(X), y)
for a in range(8):
    for b in range(8):
        assert np.array_equal(t.predict(csr_matrix(X[[a,b]])), y[[a,b]]), (a, b)
''')

bug('c07-names-of-frame', 'C07', 'a DataFrame together with explicit feature names',
    'column names of a DataFrame override the names given to fit',
    [(BA, "            if feature_names is None:\n                feature_names = X.columns\n\n            X = X.values\n", "            feature_names = X.columns\n            X = X.values\n")],
    '''
import pandas as pd
X = pd.DataFrame({'a':[0.,0,0,1,1,1]}); y = np.array([0,0,0,1,1,1.])
t = PC(.9, [1.,1.]); t.fit(X, y, feature_names=['z'])
assert t.prediction_paths(X)[0][0][1] == 'z'
''')

bug('c07-lonely-rows', 'C07', 'a batch of several rows of which exactly one goes right at an inner node above another decision',
    'the path of a row that is alone on the not-below side ends early',
    [(PE, "            if len(indices2) > 0 and not self.child2_.is_leaf():\n", "            if (len(indices2) > 1 or len(indices) == 1) and not self.child2_.is_leaf():\n")],
    '''
X = np.arange(8).reshape(-1,1).astype(float); y = np.array([0,0,1,1,0,0,1,1.])
t = PC(.99, [.1,.1]); t.fit(X, y)
one = [t.prediction_paths(X[[i]])[0] for i in range(8)]
for i in range(8):
    for j in range(8):
        assert [list(p) for p in t.prediction_paths(X[[i,j]])] == [list(one[i]), list(one[j])]
assert max(map(len, one)) >= 2
''')

bug('c08-half-precision', 'C08', 'half-precision feature values whose midpoint is not a half-precision number',
    'half-precision inputs are no longer widened',
    [(BA, "        if data.dtype in (np.float32, np.float64):\n", "        if np.issubdtype(data.dtype, np.floating):\n")],
    '''
y = np.array([0,0,0,1,1,1.])
X = np.array([[2047.],[2047.],[2047.],[2048.],[2048.],[2048.]])
a = PC(.9,[1.,1.]); a.fit(X, y)
b = PC(.9,[1.,1.]); b.fit(X.astype(np.float16), y)
assert a.split_value_ == b.split_value_ and np.array_equal(a.predict(X), b.predict(X.astype(np.float16))), (a.split_value_, b.split_value_)
r = np.array([[300.],[301.],[302.],[303.]]); v = np.array([300., 301., 400., 402.])
a = PR(.9,[0.,1.,1.,1.]); a.fit(r, v)
b = PR(.9,[0.,1.,1.,1.]); b.fit(r, v.astype(np.float16))
assert np.allclose(a.predict(r), b.predict(r)) and np.allclose(a.posterior_, b.posterior_)
''')

bug('c08-frame-narrowed', 'C08', 'DataFrame features that are not exactly representable in single precision',
    'DataFrames are narrowed to single precision',
    [(BA, "            X = X.values\n", "            X = X.values if X.dtypes.nunique() > 1 else X.to_numpy(dtype=np.float32, na_value=np.nan)\n")],
    '''
import pandas as pd
X = np.array([[16777216.],[16777217.],[16777218.],[16777219.]]); y = np.array([0,1,0,1.])
X = 16777216. + np.array([[0.],[1.],[3.],[5.]]); y = np.array([0,0,1,1.])
a = PC(.99,[.1,.1]); a.fit(X, y)
b = PC(.99,[.1,.1]); b.fit(pd.DataFrame(X), y)
assert a.split_value_ == b.split_value_ == 16777218.
''')

bug('c09-search-state', 'C09', 'fitting twice with the same random search object',
    'the random search continues its random stream from fit to fit',
    [(HO, "        self.n_mc = n_mc\n        self.seed = seed\n\n    def solve(self, optimization_function):\n        rand = RandomState(self.seed)\n\n        X = optimization_function.X\n        n_dim = X.shape[1]\n\n        for i in range(self.n_mc):\n            hyperplane_normal",
      "        self.n_mc = n_mc\n        self.seed = seed\n        self.rand = RandomState(seed)\n\n    def solve(self, optimization_function):\n        rand = self.rand\n\n        X = optimization_function.X\n        n_dim = X.shape[1]\n\n        for i in range(self.n_mc):\n            hyperplane_normal")],
    '''
from bayesian_decision_tree.hyperplane_optimization import RandomHyperplaneOptimizer
r = np.random.RandomState(0); X = r.normal(0,1,(30,3)); y = (X[:,0]+X[:,1] > 0).astype(float)
t = HC(.9, [1.,1.], optimizer=RandomHyperplaneOptimizer(20, 1)); t.fit(X, y)
a = t.best_hyperplane_normal_.copy(); t.fit(X, y)
assert np.array_equal(a, t.best_hyperplane_normal_)
''')

bug('c09-coarse-sort', 'C09', 'feature values that agree in single precision, given in another order',
    'rows are sorted by single-precision keys, so the order of nearly equal rows depends on the input order',
    [(PE, "                sort_indices_by_dim[dim] = np.argsort(X_dim)\n", "                sort_indices_by_dim[dim] = np.argsort(X_dim.astype(np.float32), kind='stable')\n")],
    '''
X = 1e9 + np.arange(12.).reshape(-1,1); y = (np.arange(12) >= 6).astype(float)
a = PC(.9,[1.,1.]); a.fit(X, y)
for s in range(10):
    o = np.random.RandomState(s).permutation(12)
    b = PC(.9,[1.,1.]); b.fit(X[o], y[o])
    assert str(a) == str(b)
''')

bug('c10-prior-kept', 'C10', 'the default prior and a second fit on a data set of another size or number of classes',
    'the default prior of the first fit is kept as a parameter',
    [(CL, "            prior_pseudo_observation_count = max(1, n_data//100)\n            return prior_pseudo_observation_count * np.ones(self.n_classes_)\n",
      "            prior_pseudo_observation_count = max(1, n_data//100)\n            self.prior = prior_pseudo_observation_count * np.ones(self.n_classes_)\n            return self.prior\n")],
    '''
X1 = np.arange(300).reshape(-1,1)*1.; y1 = (X1[:,0] >= 150)*1.
X2 = np.arange(10).reshape(-1,1)*1.; y2 = (X2[:,0] >= 5)*1.
a = PC(.9); a.fit(X1, y1); a.fit(X2, y2)
b = PC(.9); b.fit(X2, y2)
assert np.allclose(a.predict_proba(X2), b.predict_proba(X2)) and a.get_params()['prior'] is None
''')

bug('c10-search-kept', 'C10', 'asking for the parameters (or cloning) after a fit without an explicit search',
    'fit replaces the optimizer parameter by the default search',
    [(HY, "            optimizer = ScipyOptimizer(DifferentialEvolutionSolver, 666)\n", "            optimizer = self.optimizer = ScipyOptimizer(DifferentialEvolutionSolver, 666)\n")],
    '''
X = np.array([[0.,0],[1,0],[0,1],[1,1]]); y = np.array([0,0,1,1.])
t = HC(.9, [1.,1.]); t.fit(X, y)
assert t.get_params()['optimizer'] is None
''')

bug('c11-range-only', 'C11', 'labels with the right smallest and largest value but a missing or fractional class',
    'only the range of the labels is checked',
    [(CL, "        if not np.all(np.unique(y) == np.arange(0, n_classes)):\n", "        if y.min() != 0 or y.max() != n_classes - 1 or len(np.unique(y)) > n_classes:\n")],
    '''
for y in ([0,2,0,2], [0,.5,2,2], [0,1.5,2,0]):
    t = PC(.9, [1.,1.,1.])
    try:
        t.fit(np.arange(4.).reshape(-1,1), np.array(y, dtype=float))
    except ValueError:
        continue
    raise SystemExit('accepted %r' % y)
''')

bug('c11-wider-queries', 'C11', 'a query with more features than the training data',
    'queries with too many features are accepted',
    [(BA, "        if X is not None and X.shape[1] != self.n_dim_:\n", "        if X is not None and X.shape[1] < self.n_dim_:\n")],
    '''
t = PC(.9, [1.,1.]); t.fit(np.arange(4.).reshape(-1,1), np.array([0,0,1,1.]))
try:
    t.predict(np.zeros((2,2)))
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

bug('c12-trivial-child', 'C12', 'delta > 0 and a child with a single distinct target',
    'a pure child is updated from its own strengthened prior, counting its data twice',
    [(PE, "                self.child2_.posterior_ = self._compute_posterior(y2, prior)\n", "                self.child2_.posterior_ = self._compute_posterior(y2, prior_child2)\n")],
    '''
X = np.array([[0.],[0.],[0.],[1.],[1.],[1.]]); y = np.array([0,0,0,1,1,1.])
t = PC(.9, [1.,1.], delta=.5); t.fit(X, y)
assert np.allclose(t.child1_.posterior_, [4, 1]) and np.allclose(t.child2_.posterior_, [1, 4])
''')

bug('c12-alpha-full', 'C12', 'regression with 0 < delta < 1 and a child that is split or searched further',
    'the shape parameter of the strengthened prior grows by the full number of rows',
    [(RE, "        alpha_post = alpha + 0.5*n_delta\n", "        alpha_post = alpha + 0.5*n\n")],
    '''
X = np.arange(8.).reshape(-1,1); y = np.array([0,.1,0,.1,5,5.1,5,5.1])
t = PR(.9, [2.,1.,1.,.1], delta=.25); t.fit(X, y)
c = t.child1_
assert not t.is_leaf() and np.isclose(c.prior[2], 1 + .5*.25*c.n_data_), c.prior
''')

bug('c13-depth-only', 'C13', 'a collapse that changes the number of leaves but not the depth of the subtree, and enables another collapse above it',
    'pruning is repeated only when the depth has changed',
    [(BA, "        if depth_start != self.get_depth() or n_leaves_start != self.get_n_leaves():\n", "        if depth_start != self.get_depth() and n_leaves_start != self.get_n_leaves():\n")],
    '''
def collapsible(t):
    if t.is_leaf(): return False
    a, b = t.child1_, t.child2_
    if a.is_leaf() and b.is_leaf() and a._predict_leaf() == b._predict_leaf(): return True
    return collapsible(a) or collapsible(b)
for seed in range(400):
    r = np.random.RandomState(seed)
    n = 40
    X = r.randint(0, 6, (n,3)).astype(float); y = (r.rand(n) < .15 + .5*(X[:,0] > 2)*(X[:,1] > 2)).astype(float); y[:2] = [0,1]
    t = PC(.9999, [.2,.2], prune=True); t.fit(X, y)
    assert not collapsible(t), seed
''')

bug('c13-almost-equal', 'C13', 'regression leaves with nearly but not exactly equal predictions',
    'leaves with approximately equal predictions are merged',
    [(BA, "            if self.child1_._predict_leaf() == self.child2_._predict_leaf():\n", "            if np.isclose(self.child1_._predict_leaf(), self.child2_._predict_leaf()):\n")],
    '''
X = np.arange(8.).reshape(-1,1); y = np.array([0,1e-9,0,1e-9, 1e-9+3e-9,4e-9,4e-9,3e-9])
a = PR(.9, [0.,1e-3,1e-3,1e-24]); a.fit(X, y)
b = PR(.9, [0.,1e-3,1e-3,1e-24], prune=True); b.fit(X, y)
assert not a.is_leaf()
assert not b.is_leaf()
''')

bug('c14-squared', 'C14', 'a hyperplane with oblique normal',
    'the gain of a hyperplane split is distributed by squared components',
    [(HY, "            feature_importance += log_p_gain * np.abs(hyperplane_normal)\n", "            feature_importance += log_p_gain * hyperplane_normal**2\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
class One(HyperplaneOptimizer):
    def __init__(self): super().__init__(search_space_is_unit_hypercube=False)
    def solve(self, f): f.compute(np.array([3., 1.]))
X = np.array([[0.,0],[1,0],[0,1],[5,5],[6,5],[5,6]]); y = np.array([0,0,0,1,1,1.])
t = HC(.9, [1.,1.], optimizer=One()); t.fit(X, y)
assert np.allclose(t.feature_importance(), [.75, .25]), t.feature_importance()
''')

bug('c14-last-dimension', 'C14', 'several features where the best split is not on the last one',
    'the gain is computed from the last feature searched',
    [(PE, "            self.best_log_p_data_split_ = best_log_p_data_split\n", "            self.best_log_p_data_split_ = max(log_p_data_no_split, log_p_data_split.max())\n")],
    '''
r = np.random.RandomState(3)
X = r.randint(0, 8, (60, 2)).astype(float); y = ((X[:,0] > 3) ^ ((X[:,1] > 5) & (r.rand(60) < .9))).astype(float)
t = PC(.99, [1.,1.]); t.fit(X, y)
assert t.get_n_leaves() >= 3
from scipy.special import betaln
def gains(t, idx, out):
    if t.is_leaf(): return
    f = lambda i: betaln(1+np.sum(y[i]==0), 1+np.sum(y[i]==1)) - betaln(1,1)
    l = idx[X[idx, t.split_dimension_] < t.split_value_]; r = idx[X[idx, t.split_dimension_] >= t.split_value_]
    s = .99**(1+t.level); m = len(np.unique(X[idx, t.split_dimension_])) - 1
    out[t.split_dimension_] += np.log(s/(m*2)) + f(l) + f(r) - np.log(1-s) - f(idx)
    gains(t.child1_, l, out); gains(t.child2_, r, out)
o = np.zeros(2); gains(t, np.arange(60), o)
assert np.allclose(o/o.sum(), t.feature_importance()), (o/o.sum(), t.feature_importance())
''')

bug('c15-not-unit', 'C15', 'a search over normal vectors that are not of unit length',
    'normals of searches outside the hypercube are not normalised',
    [(HO, "        hyperplane_normal /= np.linalg.norm(hyperplane_normal)\n", "        if self.search_space_is_unit_hypercube:\n            hyperplane_normal /= np.linalg.norm(hyperplane_normal)\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import RandomTwoPointOptimizer
X = np.array([[0.,0],[1,0],[0,1],[5,5],[6,5],[5,6]]); y = np.array([0,0,0,1,1,1.])
t = HC(.9, [1.,1.], optimizer=RandomTwoPointOptimizer(5, 1)); t.fit(X, y)
assert not t.is_leaf() and np.isclose(np.linalg.norm(t.best_hyperplane_normal_), 1)
''')

bug('c15-boundary', 'C15', 'a query row exactly on a hyperplane',
    'rows on a hyperplane go to the first child',
    [(HY, "        projections = X[indices] @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)\n        indices1 = np.where(projections < 0)[0]\n        indices2 = np.where(projections >= 0)[0]\n",
      "        projections = X[indices] @ self.best_hyperplane_normal_ - np.dot(self.best_hyperplane_normal_, self.best_hyperplane_origin_)\n        indices1 = np.where(projections <= 0)[0]\n        indices2 = np.where(projections > 0)[0]\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
class One(HyperplaneOptimizer):
    def __init__(self): super().__init__(search_space_is_unit_hypercube=False)
    def solve(self, f): f.compute(np.array([1., 0.]))
X = np.array([[0.,0],[0,1],[0,2],[2,0],[2,1],[2,2]]); y = np.array([0,0,0,1,1,1.])
t = HC(.9, [1.,1.], optimizer=One()); t.fit(X, y)
assert t.predict(np.array([[1., 0.]]))[0] == 1
''')

bug('c16-running-best', 'C16', 'a search that uses the values it is given back',
    'the value reported for a direction is the best over all directions so far',
    [(HO, "        return -log_p_data_split[i_max]\n", "        return -self.best_log_p_data_split\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
vals = []
class Two(HyperplaneOptimizer):
    def __init__(self): super().__init__(search_space_is_unit_hypercube=False)
    def solve(self, f):
        for v in ([1., 0.], [0., 1.]): vals.append(f.compute(np.array(v)))
X = np.array([[0.,0],[0,1],[0,2],[2,0],[2,1],[2,2]]); y = np.array([0,0,0,1,1,1.])
t = HC(.9, [1.,1.], optimizer=Two()); t.fit(X, y)
assert vals[1] > vals[0] + 1e-3, vals
''')

bug('c16-nearly-as-good', 'C16', 'a later direction whose score is slightly lower but whose plane is further from the data',
    'a slightly worse split replaces the best one if the plane is further from the data',
    [(HO, "        if log_p_data_split[i_max] >= self.best_log_p_data_split:\n", "        if log_p_data_split[i_max] >= self.best_log_p_data_split - 0.05 * np.abs(self.best_log_p_data_split):\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
class Two(HyperplaneOptimizer):
    def __init__(self): super().__init__(search_space_is_unit_hypercube=False)
    def solve(self, f):
        self.vals = [f.compute(np.array(v)) for v in ([1., 0.], [0., 1.])]
for seed in range(300):
    r = np.random.RandomState(seed)
    X = np.c_[np.arange(30)*1., r.permutation(30)*10.]; y = np.r_[np.zeros(15), np.ones(15)]
    y = np.where(r.rand(30) < .3, 1-y, y); y[:2] = [0,1]
    X[:,1] = np.argsort(np.argsort(y + r.normal(0, .6, 30)))*10.
    o = Two(); t = HC(.9, [1.,1.], optimizer=o)
    vals = []
    class Rec(Two):
        def solve(self, f):
            v = [f.compute(np.array(d)) for d in ([1., 0.], [0., 1.])]
            vals.append(v + [f.log_p_data_no_split])
    t = HC(.9, [1.,1.], optimizer=Rec()); t.fit(X, y)
    a, b, ns = vals[0]
    if min(a, b) < -ns - 1e-9 and abs(a-b) > 1e-9:
        assert not t.is_leaf() and abs(t.best_hyperplane_normal_[0 if a < b else 1]) > .5, seed
''')

bug('c17-short-threshold', 'C17', 'a threshold with more than six significant digits',
    'printed thresholds are rounded to six digits',
    [(PE, "            s += '{}={}'.format(self.split_feature_name_, self.split_value_)\n", "            s += '{}={:g}'.format(self.split_feature_name_, self.split_value_)\n")],
    '''
X = np.array([[1234567.]]*3 + [[1234568.]]*3); y = np.array([0,0,0,1,1,1.])
t = PC(.9, [1.,1.]); t.fit(X, y)
assert '1234567.5' in str(t).split('\\n')[0]
''')

bug('c17-order', 'C17', 'a decision node whose first child is a leaf and whose second child is not',
    'the second child is printed first if only the first one is a leaf',
    [(PE, "            s += self.child1_._str(anchor_child1, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, True)\n", "            swap = self.child1_.is_leaf() and not self.child2_.is_leaf() and self.level > 0\n            first, second = (self.child2_, self.child1_) if swap else (self.child1_, self.child2_)\n            s += first._str(anchor_child1, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, not swap)\n"),
     (PE, "            s += self.child2_._str(anchor_child2, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, False)\n", "            s += second._str(anchor_child2, self.split_value_, VERT_RIGHT, DOWN_RIGHT, BAR, GEQ, swap)\n")],
    '''
X = np.arange(32).reshape(-1,1)*1.; y = np.zeros(32)
for c in (16, 24, 28, 30): y[c:] = 1 - y[c:]
t = PC(.99999, [.01,.01]); t.fit(X, y)
def ns(t): return [t.n_data_] if t.is_leaf() else ns(t.child1_) + ns(t.child2_)
import re
assert [int(v) for v in re.findall(r'n=(\\d+)', str(t))] == ns(t)
''')

bug('c18-patience', 'C18', 'a search that improves more than 50 generations after its start',
    'simulated annealing gives up 50 generations after its start instead of after its last improvement',
    [(HO, "            if values_sorted[0] < best_value:\n                no_improvements = 0\n            else:\n                no_improvements += 1\n\n            candidates = {v: candidates[v] for v in values_sorted}\n\n\nclass Gradient",
      "            if no_improvements == 0 or values_sorted[0] >= best_value:\n                no_improvements += 1\n\n            candidates = {v: candidates[v] for v in values_sorted}\n\n\nclass Gradient")],
    '''
from bayesian_decision_tree.hyperplane_optimization import SimulatedAnnealingOptimizer
class F:
    X = np.zeros((4, 3)); n = 0
    def compute(self, v):
        self.n += 1
        return -float(min(self.n, 120)//4)
f = F(); SimulatedAnnealingOptimizer(4, 2, .95, 1).solve(f)
assert f.n >= 120 + 100, f.n
''')

bug('c18-same-class', 'C18', 'three or more classes, or an unlucky draw',
    'the two points of the two-point search may belong to the same class',
    [(HO, "                while class2 == class1:\n", "                while class2 == class1 == 0:\n")],
    '''
from bayesian_decision_tree.hyperplane_optimization import RandomTwoPointOptimizer
class F:
    X = np.array([[0.,0],[1,0],[10,100],[11,100]]); y = np.array([0,0,1,1.]); got = []
    def compute(self, v): self.got.append(np.array(v)); return 0.
for s in range(20):
    F.got = []; RandomTwoPointOptimizer(10, s).solve(F())
    assert all(abs(v[1]) == 100 for v in F.got)
''')

bug('c19-shared-angle', 'C19', 'a hypercube of dimension three (or five) mapped to the sphere',
    'one of the angles is driven by the coordinate that also drives the first angle',
    [(UT, "            phi = 2*np.pi * hypercube_points[2*i]\n", "            phi = 2*np.pi * ((hypercube_points[2*i] + hypercube_points[0]) % 1 if i > 1 else hypercube_points[0])\n")],
    '''
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as f
r = np.random.RandomState(1)
V = f(r.uniform(0,1,(40000,3)), half_hypersphere=False)
# quadrants of the second pair must not depend on those of the first
a = (V[:,0] > 0)*2 + (V[:,1] > 0); b = (V[:,2] > 0)*2 + (V[:,3] > 0)
T = np.array([[np.mean((a==i)&(b==j)) for j in range(4)] for i in range(4)])
assert np.all(np.abs(T - 1/16) < .01), T
''')

bug('c19-odd-exponent', 'C19', 'an odd embedding dimension of five or more',
    'wrong radial law of the second pair in odd dimensions',
    [(UT, "            h = u ** (1 / (2 * i - 1))\n", "            h = u ** (1 / (2 * min(i, 2) - 1))\n")],
    '''
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface as f
r = np.random.RandomState(1)
for half in (True, False):
    V = f(r.uniform(0,1,(40000,6)), half_hypersphere=half)
    m = np.mean(V**2, axis=0)
    assert np.all(np.abs(m - 1/7) < .004), m
''')
