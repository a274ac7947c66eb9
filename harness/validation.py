"""C11: the calls enumerated by Validation.tla, made on real models."""
import json
import multiprocessing
import re
import time
import traceback
import warnings

from common import *  # noqa
import tlc
import lifecycle
from lifecycle import plain, same

warnings.filterwarnings('ignore')
PART = """INIT Init
NEXT Next
CONSTANTS
  Kinds = {"clf", "reg"}
  Part = "%s"
  Dims = {%s}
  YDims = {%s}
  MaxRows = %d
INVARIANTS RefusedUnchanged QueriesChangeNothing FittedStays Emit
CHECK_DEADLOCK FALSE
"""


def cells(n):
    return ((np.arange(n) * 7) % 5).astype(float)


def build_x(xs, cont):
    import pandas as pd
    from scipy.sparse import csr_matrix, csc_matrix
    A = cells(int(np.prod(xs))).reshape(xs)
    if cont == 'list':
        return A.tolist()
    if cont == 'df':
        return pd.DataFrame(A)
    if cont == 'csr':
        return csr_matrix(A)
    if cont == 'csc':
        return csc_matrix(A)
    return A


def build_y(call):
    if call['labels']:
        # an odd label stands for any number between two integers, 99 for what is not a number at all
        L = call['labels']
        part = [.5, 2.**-40, 1 - 2.**-40, 1e-14, .25, 1 - 2.**-52, 2.**-24][(sum(L) + 3 * len(L) + call['K']) % 7]
        odd = [np.nan, np.inf, -np.inf][(len(L) + call['K'] + L[0]) % 3]
        return np.array([odd if v == 99 else v // 2 + (part if v % 2 else 0) for v in L])
    n = int(np.prod(call['ys']))
    y = (np.arange(n) % 2).astype(float)
    if call['kind'] == 'reg':
        y = y * 3.5 - 1
    return y.reshape(call['ys'])


def new_model(cls, K):
    kw = {}
    if K:
        kw['prior'] = [1.0] * K
    if cls[0] == 'h':
        from bayesian_decision_tree import hyperplane_optimization as ho
        kw['optimizer'] = ho.RandomHyperplaneOptimizer(4, 1)
    return lifecycle.classes()[cls](**kw)


def train(cls, m, nf, K):
    n = 8
    X = np.array([[(i * (f + 1)) % 5 + (3 if i >= 4 else 0) * (f == 0) for f in range(nf)] for i in range(n)], dtype=float)
    y = np.array([0, 0, 0, 0, 1, 1, 1, 1.])
    if cls[1] == 'r':
        y = y * 5 + np.arange(n) % 2
    elif K > 2:
        y = np.arange(n) * K // n * 1.0
    m.fit(X, y)
    return X


def fingerprint(cls, m, X):
    d = dict(params=plain({k: v for k, v in m.get_params().items()}), text=str(m), fitted=m.is_fitted())
    if X is not None:
        for q in ('predict', 'proba', 'paths', 'importance', 'depth', 'leaves'):
            d[q] = plain(lifecycle.ask(cls, m, q, X))
    d['attrs'] = sorted(k for k in vars(m) if k.endswith('_'))
    d['simple'] = sorted((k, v) for k, v in vars(m).items() if isinstance(v, (int, float, str, bool, type(None))))
    return d


def make_call(call, cls):
    """None, or what is wrong."""
    m = new_model(cls, call['K'])
    X0 = train(cls, m, call['nf'], call['K']) if call['nf'] else None
    before = fingerprint(cls, m, X0)
    X = build_x(tuple(call['xs']), call['cont'])
    what = call['what']
    keep = plain(X)
    try:
        if what == 'fit':
            y = build_y(call)
            ykeep = plain(y)
            r = m.fit(X, y)
            res = 'ok' if r is m else 'fit returned %r' % (r,)
        else:
            r = lifecycle.ask(cls, m, what, X)
            res = 'ok'
            if what in ('predict', 'proba', 'paths', 'raw') and len(r) != (1 if len(call['xs']) == 1 else call['xs'][0]):
                res = 'answer of length %d' % len(r)
    except ValueError:
        res = 'refused'
    except Exception as e:
        res = '%s: %s' % (type(e).__name__, e)
    if call['res'] != 'any' and res != call['res']:
        return '%s instead of %s' % (res, call['res'])
    if not same(plain(X), keep) or (what == 'fit' and not same(plain(y), ykeep)):
        return 'the arguments were changed'
    if res != 'ok' or what != 'fit':
        after = fingerprint(cls, m, X0)
        if not same(plain(after), plain(before)):
            diff = [k for k in after if not same(plain(after[k]), plain(before[k]))]
            return 'the model was changed (%s): %s -> %s' % (diff, [before[k] for k in diff], [after[k] for k in diff])
    elif call['res'] == 'ok':
        # it must be usable
        if len(m.predict(X)) != call['xs'][0]:
            return 'the fitted model does not predict its training rows'
    return None


def run_chunk(chunk):
    out = []
    for key, call, cls in chunk:
        try:
            out.append((key, make_call(call, cls)))
        except HarnessBug:
            raise
        except Exception as e:
            out.append((key, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:])))
    return out


def calls_of(r):
    return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"CALL(\{.*\})"$', r['out'], re.M)]


def check(prop, seed, tier):
    import check as chk
    t0 = time.time()
    quick = tier == 'quick'
    rng = np.random.RandomState([seed, 11])
    states = trans = 0
    jobs = []
    total = 0
    for part in ('fit', 'labels', 'query'):
        dims = '0, 1, 2, 3, 4' if quick or part == 'query' else '0, 1, 2, 3, 4, 6'
        r = tlc.run('Validation', PART % (part, dims, '0, 1, 2, 3' if quick else '0, 1, 2, 3, 4', 4 if quick else 5), timeout=800)
        if not r['ok']:
            raise tlc.TLCError(r['out'][-3000:])
        states += r['distinct']
        trans += r['states']
        cs = calls_of(r)
        if len(cs) < r['distinct'] - 10:
            raise tlc.TLCError('only %d calls of %d states' % (len(cs), r['distinct']))
        cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
        sel = []
        for i, c in enumerate(cs):
            for cls in ('pc', 'hc') if c['kind'] == 'clf' else ('pr', 'hr'):
                if c['what'] == 'paths' and cls[0] == 'h' or c['what'] == 'raw' and not hasattr(lifecycle.classes()[cls], '_get_raw_leaf_data'):
                    continue
                sel.append(('%s-%d-%s' % (part, i, cls), c, cls))
        total += len(sel)
        cap = {'fit': 100000, 'labels': 60000, 'query': 60000}[part] if quick else 10**9
        if len(sel) > cap:
            # calls that must be accepted or are near the border are few: keep them all
            ok = [s for s in sel if s[1]['res'] == 'ok']
            rest = [s for s in sel if s[1]['res'] != 'ok']
            sel = ok + [rest[i] for i in sorted(rng.permutation(len(rest))[:max(0, cap - len(ok))])]
        jobs += sel
    bykey = {k: dict(call=c, cls=cls) for k, c, cls in jobs}
    viols, done = [], 0
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8) as pool:
        chunks = [jobs[i:i + 100] for i in range(0, len(jobs), 100)]
        res = [(ch, pool.apply_async(run_chunk, (ch,))) for ch in chunks]
        end = time.time() + (500 if quick else 6000)
        for ch, a in res:
            try:
                for k, text in a.get(max(1, end - time.time())):
                    done += 1
                    if text:
                        viols.append((k, text + '  ' + json.dumps(bykey[k])))
            except multiprocessing.TimeoutError:
                viols.append((ch[0][0], 'no answer'))
                break
        pool.terminate()
    cnt = {}
    for k, c, cls in jobs:
        cnt[c['what'] + '/' + c['res']] = cnt.get(c['what'] + '/' + c['res'], 0) + 1
    ev = dict(states=states, transitions=trans, traces_validated_against_impl=done, calls_enumerated=total, exhaustive=done == total,
              outcomes=cnt, samples=[bykey[k] for k in list(bykey)[-2:]],
              assumptions=['numeric arguments; fits on fewer than two rows, without features or with targets of three or more axes are not promised either way'])
    return chk.finish(prop, viols, ev, t0, lambda key: dict(property=prop, **bykey[key], verdicts=[t for k, t in viols if k == key]))
