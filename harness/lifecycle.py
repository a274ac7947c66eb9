"""C10: call histories generated by Lifecycle.tla, replayed on the real classes.

The specification says, after every call, which parameters and which fit each model stands for.  What a
model with that fit must answer is taken from a model that was built and fitted once in a process of its own."""
import copy
import io
import json
import contextlib
import multiprocessing
import os
import pickle
import re
import sys
import time
import traceback
import warnings

from common import *  # noqa
import tlc

warnings.filterwarnings('ignore')
REJECT = ['xdim3', 'ydim2', 'length', 'labels']
ABORT = ['first', 'last']
QUERIES = ['predict', 'proba', 'paths', 'raw', 'importance', 'depth', 'leaves', 'print']
CLASSES = ['pc', 'hc', 'pr', 'hr']


class Interrupted(BaseException):
    pass


def classes():
    import observe
    m = observe.models()
    return {'pc': m[('clf', False)], 'hc': m[('clf', True)], 'pr': m[('reg', False)], 'hr': m[('reg', True)]}


def params(cls, p):
    """Constructor arguments of a parameter set (always a new dict)."""
    if p == 4:
        return {}
    kw = [dict(partition_prior=.9, prior=None), dict(partition_prior=.97, prune=True, split_precision=.25), dict(partition_prior=.6, delta=.5)][p - 1]
    if p > 1:
        if cls[1] == 'c':
            kw['prior'] = [[.5, 1.5], np.array([.25, .5, 1.0])][p - 2]
        else:
            kw['prior'] = [[1.0, .5, 1.0, 2.0], (0.0, .1, .5, .5)][p - 2]
    if cls[0] == 'h':
        from bayesian_decision_tree import hyperplane_optimization as ho
        kw['optimizer'] = [lambda: ho.RandomHyperplaneOptimizer(12, 3), lambda: ho.QuasiRandomHyperplaneOptimizer(9), lambda: ho.SimulatedAnnealingOptimizer(4, 2, .9, 7)][p - 1]()
    return kw


def full(cls, p):
    """All parameters of a model built with a parameter set."""
    import inspect
    kw = {k: v.default for k, v in inspect.signature(classes()[cls].__init__).parameters.items() if k != 'self'}
    kw.update(params(cls, p))
    return kw


def data(cls, d):
    """Training arguments of a data set (always new objects)."""
    import pandas as pd
    from scipy.sparse import csr_matrix
    rs = np.random.RandomState(100 + d)
    reg = cls[1] == 'r'
    if d == 1:
        X = np.array([[i, (3 * i) % 7] for i in range(10)], dtype=float)
        y = np.array([0, 0, 0, 1, 1, 1, 0, 0, 1, 1])
        kw = dict(feature_names=['aa', 'bb'])
    elif d >= 5:
        X = np.array([[(7 * i) % 10, i // 3 + (d == 6) * (i % 2)] for i in range(10)], dtype=float)
        y = np.array([[1, 1, 0, 0, 0, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 1, 2, 2, 2, 2]][d - 5])
        kw = dict(feature_names=['aa', 'bb'])
    elif d == 2:
        A = rs.randint(0, 9, (12, 3)).astype(float)
        X = pd.DataFrame(A, columns=['p', 'q', 'r'])
        y = np.array([i % 3 for i in range(12)])
        X['q'] = y * 4. + A[:, 1] / 16
        kw = {}
    elif d == 3:
        X = np.array([[1., 5.], [1., 5.], [1., 5.], [1., 5.]])
        y = np.array([0, 1, 1, 1])
        kw = {}
    else:
        A = rs.randint(-2, 3, (11, 4)).astype(float)
        A[rs.rand(11, 4) < .4] = 0
        X = csr_matrix(A)
        y = (A[:, 2] + A[:, 0] > 0).astype(int)
        y[:2] = [0, 1]
        kw = {}
    y = y * 6. - 2. + np.arange(len(y)) % 3 if reg else y.astype(float)
    return X, y, kw


def rejected(cls, d, k):
    X, y, kw = data(cls, d)
    if k == 'xdim3':
        return np.zeros((len(y), 2, 2)), y, {}
    if k == 'ydim2':
        return X, np.c_[y, y], kw
    if k == 'labels' and cls[1] == 'c':
        y = y.copy()
        y[y == 0] = 5
        return X, y, kw
    return X, y[:-1], kw


def query_rows(cls, d):
    X = data(cls, d)[0]
    A = X.toarray() if hasattr(X, 'toarray') else np.asarray(X)
    rs = np.random.RandomState(d)
    R = np.vstack([A, A + rs.randint(-3, 4, A.shape), rs.randint(-9, 15, (6, A.shape[1]))]).astype(float)
    return R


def ask(cls, m, kind, Q):
    if kind == 'predict':
        return m.predict(Q)
    if kind == 'proba':
        return m.predict_proba(Q) if cls[1] == 'c' else None
    if kind == 'paths':
        return m.prediction_paths(Q) if cls[0] == 'p' else None
    if kind == 'raw':
        return m._get_raw_leaf_data(Q) if hasattr(m, '_get_raw_leaf_data') else None
    if kind == 'importance':
        return m.feature_importance()
    if kind == 'depth':
        return m.get_depth()
    if kind == 'leaves':
        return m.get_n_leaves()
    if kind == 'print':
        return str(m)
    raise HarnessBug(kind)


def plain(v):
    """A comparable copy of a value."""
    if hasattr(v, 'toarray'):
        return ('sparse', plain(v.toarray()))
    if hasattr(v, 'columns') and hasattr(v, 'values'):
        return ('frame', plain(list(v.columns)), plain(list(v.index)), plain(v.values))
    if isinstance(v, np.ndarray):
        return ('a', v.shape, [plain(e) for e in v.reshape(-1).tolist()])
    if isinstance(v, (list, tuple)):
        return ('l', [plain(e) for e in v])
    if isinstance(v, dict):
        return ('d', sorted((k, plain(e)) for k, e in v.items()))
    if isinstance(v, np.generic):
        return plain(v.item())
    if isinstance(v, (bool, str, int, type(None))):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, type):
        return v.__name__
    return (type(v).__name__, plain({k: e for k, e in vars(v).items()}))


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(a))
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def scribble(v):
    """Overwrites everything in a value."""
    if hasattr(v, 'toarray'):
        v.data[...] = 77
    elif hasattr(v, 'columns') and hasattr(v, 'values'):
        v.iloc[:, :] = 77.
        v.columns = ['zz%d' % i for i in range(v.shape[1])]
    elif isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype != object:
            v[...] = 77
    elif isinstance(v, list):
        for i, e in enumerate(v):
            if isinstance(e, (list, np.ndarray)):
                scribble(e)
            else:
                v[i] = 'zz'
    elif isinstance(v, dict):
        for e in v.values():
            scribble(e)


class Writer(io.StringIO):
    def __init__(self, stop):
        super().__init__()
        self.n = 0
        self.stop = stop

    def write(self, s):
        self.n += 1
        if self.n == self.stop:
            raise Interrupted()
        return super().write(s)


def reference(job):
    """Answers of a model built and fitted once."""
    cls, p, d = job
    try:
        m = classes()[cls](**params(cls, p))
        X, y, kw = data(cls, d)
        w = Writer(0)
        with contextlib.redirect_stdout(w):
            m.fit(X, y, verbose=True, **kw)
        Q = query_rows(cls, d)
        return job, dict(ans={q: plain(ask(cls, m, q, Q)) for q in QUERIES}, writes=w.n)
    except Exception as e:
        return job, dict(error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))


def accepts(cls, p, d):
    return cls[1] == 'r' or p in (1, 4) or [0, 2, 3][p - 1] == [2, 3, 2, 2, 2, 3][d - 1]


def reverse(p):
    """The comparable copy of an answer, rows reversed."""
    if p[0] == 'a' and len(p[1]) > 1:
        return p[:2] + (plain(np.array(p[2]).reshape(p[1])[::-1])[2],)
    return p[:-1] + (p[-1][::-1],)


def refill(held, v):
    """An array held by the caller since an earlier fit, with the contents of v."""
    b = held.get((v.shape, v.dtype.str)) if isinstance(v, np.ndarray) else None
    if b is None:
        return v
    b[...] = v
    return b


class Mismatch(Exception):
    pass


def replay(hist, refs, eager):
    """Replays one history; raises Mismatch."""
    C = classes()
    objs, clss, given, held = [], [], [], {}

    def observe(step, st, kinds):
        for i, m in enumerate(objs):
            cls, want = clss[i], st[i]
            got = m.get_params()
            wantp = full(cls, want['par'])
            for k, v in wantp.items():
                if k not in got or not same(plain(got[k]), plain(v)):
                    raise Mismatch('step %d: model %d reports parameter %s=%r instead of %r' % (step, i + 1, k, got.get(k), v))
            f = want['fit']
            for q in kinds:
                check(step, i, cls, f, q)

    def check(step, i, cls, f, q, again=True):
        m = objs[i]
        if f['par'] == 0:
            Q = query_rows(cls, 1)
            if q == 'print':
                if str(m) != 'Unfitted model' or repr(m) is None:
                    raise Mismatch('step %d: unfitted model %d prints as %r' % (step, i + 1, str(m)))
                if m.is_fitted():
                    raise Mismatch('step %d: unfitted model %d claims to be fitted' % (step, i + 1))
                return
            if (q == 'proba' and cls[1] == 'r') or (q == 'paths' and cls[0] == 'h'):
                return
            if q == 'raw' and not hasattr(m, '_get_raw_leaf_data'):
                return
            try:
                r = ask(cls, m, q, Q)
            except ValueError:
                return
            except Exception as e:
                raise Mismatch('step %d: %s on unfitted model %d raises %s: %s' % (step, q, i + 1, type(e).__name__, e))
            raise Mismatch('step %d: %s on unfitted model %d answers %r' % (step, q, i + 1, r))
        ref = refs[(cls, f['par'], f['data'])]['ans'][q]
        Q = query_rows(cls, f['data'])
        try:
            r = ask(cls, m, q, Q)
        except Exception as e:
            raise Mismatch('step %d: %s on model %d (%s fitted with parameters %d on data %d) raises %s: %s' % (step, q, i + 1, cls, f['par'], f['data'], type(e).__name__, e))
        if not same(plain(r), ref):
            raise Mismatch('step %d: %s of model %d differs from a fresh %s with parameters %d fitted on data %d:\n%s\n%s' % (step, q, i + 1, cls, f['par'], f['data'], plain(r), ref))
        if not same(plain(Q), plain(query_rows(cls, f['data']))):
            raise Mismatch('step %d: %s changed its argument' % (step, q))
        if not m.is_fitted():
            raise Mismatch('step %d: fitted model %d claims to be unfitted' % (step, i + 1))
        if again and q in ('predict', 'proba', 'paths', 'raw') and r is not None:
            Q[...] = Q[::-1].copy()
            try:
                r2 = ask(cls, m, q, Q)
            except Exception as e:
                raise Mismatch('step %d: %s on model %d, again with reversed rows, raises %s: %s' % (step, q, i + 1, type(e).__name__, e))
            if not same(plain(r2), reverse(ref)):
                raise Mismatch('step %d: %s of model %d, again with the same array with its rows reversed, is not reversed:\n%s\n%s' % (step, q, i + 1, plain(r2), ref))
            if not same(plain(r), ref):
                raise Mismatch('step %d: %s of model %d changed when it was asked again' % (step, q, i + 1))
        given.append(r)
        if isinstance(r, (np.ndarray, list)):
            scribble(r)

    for n, e in enumerate(hist, 1):
        op, o, arg, kind = e['op'], e['o'], e['arg'], e['kind']
        if op == 'new':
            kw = params(kind, arg)
            before = plain(kw)
            objs.append(C[kind](**kw))
            clss.append(kind)
            if not same(plain(kw), before):
                raise Mismatch('step %d: constructor changed its arguments' % n)
        elif op == 'fit':
            m, cls = objs[o - 1], clss[o - 1]
            X, y, kw = data(cls, arg) if kind in ('plain', 'refill') + tuple(ABORT) else rejected(cls, arg, kind)
            if kind == 'refill':
                X, y = [refill(held, v) for v in (X, y)]
            before = plain([X, y, kw])
            w = io.StringIO()
            if kind in ABORT:
                tot = refs[(cls, e['after'][o - 1]['par'], arg)]['writes']
                if tot == 0:
                    return False
                w = Writer(1 if kind == 'first' else max(1, tot - 1))
            try:
                with contextlib.redirect_stdout(w):
                    r = m.fit(X, y, verbose=kind in ABORT, **kw)
                res = 'self' if r is m else 'other'
            except Interrupted:
                res = 'raises'
            except ValueError:
                res = 'ValueError'
            except Exception as ex:
                res = '%s: %s' % (type(ex).__name__, ex)
            if res != e['res']:
                raise Mismatch('step %d: fit (%s) of model %d on data %d: %s instead of %s' % (n, kind, o, arg, res, e['res']))
            if not same(plain([X, y, kw]), before):
                raise Mismatch('step %d: fit changed its arguments' % n)
            given.append([X, y, kw])
            for v in (X, y):
                if isinstance(v, np.ndarray):
                    held[v.shape, v.dtype.str] = v
        elif op == 'query':
            check(n, o - 1, clss[o - 1], e['after'][o - 1]['fit'], kind, arg == 1)
        elif op == 'set_params':
            if objs[o - 1].set_params(**full(clss[o - 1], arg)) is not objs[o - 1]:
                raise Mismatch('step %d: set_params does not return the model' % n)
        elif op == 'get_params':
            observe(n, e['after'], [])
        elif op == 'clone':
            from sklearn.base import clone
            objs.append(clone(objs[o - 1]))
            clss.append(clss[o - 1])
        elif op == 'copy':
            objs.append(copy.deepcopy(objs[o - 1]) if kind == 'deepcopy' else pickle.loads(pickle.dumps(objs[o - 1])))
            clss.append(clss[o - 1])
        elif op == 'scribble':
            for g in given:
                if isinstance(g, list) and len(g) == 3 and isinstance(g[2], dict):
                    scribble(g[0])
                    scribble(g[1])
                    scribble(g[2])
            given[:] = []
        else:
            raise HarnessBug(op)
        if eager or n == len(hist):
            observe(n, e['after'], QUERIES)
    return True


def run_hist(job):
    key, hist, refs, eager = job
    try:
        return (key, 'ok' if replay(hist, refs, eager) else 'skip', '')
    except HarnessBug:
        raise
    except Mismatch as e:
        return (key, 'viol', str(e))
    except Exception as e:
        return (key, 'viol', 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))


_REFS = {}


def run_chunk(chunk):
    return [run_hist((k, h, _REFS, e)) for k, h, e in chunk]


CFG = """SPECIFICATION Spec
CONSTANTS
  Classes = {%s}
  NPar = %d
  Data = {%s}
  MaxObj = %d
  MaxLen = %d
  Reject = {%s}
  Abort = {%s}
  FitKinds = {%s}
  Queries = {%s}
  KOfPar <- MCKOfPar
  KOfData <- MCKOfData
  Ops = {%s}
INVARIANTS FitIsLastFit Emit
PROPERTIES OnlyTarget FittedForever
CHECK_DEADLOCK FALSE
"""
OPS = ['set_params', 'get_params', 'clone', 'copy', 'scribble']


def q(xs):
    return ', '.join('"%s"' % x for x in xs)


def histories(r):
    return [json.loads(m.encode().decode('unicode_escape') if '\\"' in m else m) for m in re.findall(r'^"?HIST(\[.*\])"?$', r['out'], re.M)]


def check(prop, seed, tier):
    import check as chk
    t0 = time.time()
    global _REFS
    quick = tier == 'quick'
    rng = np.random.RandomState([seed, 10])
    ctx = multiprocessing.get_context('fork')
    # references, one process each
    jobs = [(c, p, d) for c in CLASSES for p in (1, 2, 3, 4) for d in (1, 2, 3, 4, 5, 6) if accepts(c, p, d)]
    viols = []
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        for job, r in pool.imap_unordered(reference, jobs, chunksize=1):
            if 'error' in r:
                viols.append(('reference-%s-%d-%d' % job, 'a well-formed fit or query fails: ' + r['error']))
            _REFS[job] = r
    hists = []
    states = trans = 0
    if not viols:
        # all short histories of each class
        for c, D, F, L in [(c, '1, 2', ['plain'], 4) for c in CLASSES] + [(c, '1, 5', ['plain', 'refill'], 4) for c in CLASSES]:
            ops, qs = (OPS, ['predict', 'print'][:1 if quick else 2]) if D == '1, 2' else (['set_params', 'copy'], ['predict'])
            r = tlc.run('MCLifecycle', CFG % (q([c]), 2, D, 2, L, q(['length']), q(['last']), q(F), q(qs), q(ops)), timeout=800)
            if not r['ok']:
                raise tlc.TLCError(r['out'][-3000:])
            states += r['distinct']
            trans += r['states']
            hs = histories(r)
            if D != '1, 2':           # those which refill arrays
                hs = [h for h in hs if any(e['kind'] == 'refill' for e in h[2:])]
            cap = (900 if D == '1, 2' else 300) if quick else 12000
            if len(hs) > cap:
                hs = [hs[i] for i in sorted(rng.permutation(len(hs))[:cap])]
            hists += [('short-%s-%s%d' % (c, F[-1][0], i), h) for i, h in enumerate(hs)]
        # long random histories over several models and classes
        for i, L in enumerate([9, 14] if quick else [9, 14, 20, 30]):
            n = 350 if quick else 4000
            r = tlc.run('MCLifecycle', CFG % (q(CLASSES), 4, '1, 2, 3, 4, 5, 6', 4, L, q(REJECT), q(ABORT), q(['plain', 'refill']), q(QUERIES), q(OPS)), workers=1,
                        args=['-simulate', 'num=%d' % n, '-depth', str(L + 1), '-seed', str(seed * 10 + i)], timeout=800)
            if re.search(r'^Error|Exception', r['out'], re.M):
                raise tlc.TLCError(r['out'][-3000:])
            # every successor of a state is printed: keep one continuation of each history
            pre = {}
            for h in histories(r):
                pre.setdefault(json.dumps(h[:-1]), []).append(h)
            hs = [hh[rng.randint(len(hh))] for hh in pre.values()]
            if len(hs) < n // 2:
                raise tlc.TLCError('only %d histories\n%s' % (len(hs), r['out'][-2000:]))
            trans += sum(len(h) for h in hs)
            hists += [('long-%d-%d' % (L, j), h) for j, h in enumerate(hs)]
    chunks, allh = [], {}
    for i in range(0, len(hists), 25):
        ch = []
        for k, h in hists[i:i + 25]:
            allh[k] = h
            ch.append((k, h, bool(rng.rand() < .5)))
        chunks.append(ch)
    done = skip = 0
    if chunks:
        pool = ctx.Pool(8)
        try:
            # a chunk that does not answer is a hang
            res = [(ch, pool.apply_async(run_chunk, (ch,))) for ch in chunks]
            end = time.time() + (500 if quick else 6000)
            for ch, a in res:
                try:
                    for k, verdict, text in a.get(max(1, end - time.time())):
                        done += verdict == 'ok'
                        skip += verdict == 'skip'
                        if verdict == 'viol':
                            viols.append((k, text))
                except multiprocessing.TimeoutError:
                    viols.append((ch[0][0], 'no answer'))
                    break
        finally:
            pool.terminate()
    viols.sort(key=lambda v: len(allh.get(v[0], [])))
    ev = dict(states=states, transitions=trans, traces_validated_against_impl=done, skipped=skip, calls=sum(len(h) for _, h in hists),
              references=len(_REFS), samples=[dict(id=k, calls=[{a: b for a, b in e.items() if a != 'after'} for e in h]) for k, h in hists[-1:]],
              assumptions=['a model built and fitted once in its own process is right (what it must answer is the subject of the other properties)'])
    return chk.finish(prop, viols, ev, t0, lambda key: dict(property=prop, history=allh.get(key), verdicts=[t for k, t in viols if k == key]))
