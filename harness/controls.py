"""Negative controls: corrupted records must be rejected by the specification (the binding is not vacuous)."""
import copy

import tlc
from common import *  # noqa


def bump(v):
    """A clearly different recorded number."""
    return dict(s=v['s'], m=limbs(sum(d * 10000**i for i, d in enumerate(v['m'])) + 10**7 + 10**6))


def corrupt(S, clause):
    """A copy of the record that violates `clause`, or None."""
    S = copy.deepcopy(S)
    N = S['nodes']
    if S['amb'] or S['hastwin'] and clause in ('n',):
        return None
    splits = [d for d in N if not d['leaf']]
    leaves = [d for d in N if d['leaf']]
    if clause == 'n':
        N[-1]['n'] += 1
    elif clause == 'level':
        N[-1]['lev'] += 1
    elif clause == 'depth':
        S['depth'] += 1
    elif clause == 'nleaves':
        S['nleaves'] += 1
    elif clause == 'post':
        N[-1]['post'][0] = bump(N[-1]['post'][0])
    elif clause == 'prior':
        c = [d for d in N if d['prior'] and not d['leaf']]
        if not c:
            return None
        c[0]['prior'][0] = bump(c[0]['prior'][0])
    elif clause == 'missed':
        if not splits or not S['scored'] or S['hasreports']:
            return None
        N[0]['leaf'] = True
        S['nodes'] = N[:1]
        S['queries'], S['variants'] = [], []
    elif clause in ('midpoint',):
        if not splits or S['mode'] == 'rank' or S['inst']['dirs']:
            return None
        splits[-1]['t2'] += 1
    elif clause == 'name':
        if not splits:
            return None
        splits[-1]['name'] += '?'
    elif clause == 'qpred':
        if not S['queries']:
            return None
        S['queries'][0]['pred'][0] = bump(S['queries'][0]['pred'][0])
    elif clause == 'qproba':
        c = [q for q in S['queries'] if q['proba']]
        if not c:
            return None
        c[-1]['proba'][0] = bump(c[-1]['proba'][0])
    elif clause in ('qraw', 'qleaf'):
        c = [q for q in S['queries'] if q['raw']]
        if not c:
            return None
        c[-1]['raw'][1][1] = bump(c[-1]['raw'][1][1])
    elif clause == 'qpath':
        c = [q for q in S['queries'] if q['path']]
        if not c:
            return None
        c[-1]['path'][-1]['ge'] = not c[-1]['path'][-1]['ge']
    elif clause == 'qcount':
        if not S['batches']:
            return None
        S['batches'][0]['got'][0] += 1
    elif clause == 'pruned':
        if not S['hastwin'] or len(S['twin']) == len(N):
            return None
        S['twin'] = copy.deepcopy(N)
        S['queries'], S['hasprint'] = [], False
    elif clause == 'print':
        if len(S['lines']) < 2:
            return None
        S['lines'][-1]['side'] = 'L'
    elif clause == 'importance':
        if len(S['imp']) < 2 or not S['scored']:
            return None
        S['imp'][-1] = bump(S['imp'][-1])
    elif clause == 'variant':
        if not S['variants']:
            return None
        S['variants'][0]['nodes'][-1]['n'] += 1
        S['variants'][0]['loose'] = False
    elif clause == 'report':
        if not S['reports'] or not S['scored']:
            return None
        S['reports'][0]['vals'][0] += 100000
    elif clause == 'direction':
        if not splits:
            return None
        splits[0]['f'] = 0
    elif clause == 'unit':
        if not splits or not splits[0]['norm2']:
            return None
        splits[0]['norm2'] = [bump(splits[0]['norm2'][0])]
    elif clause == 'origin':
        if not splits or not splits[0]['o2']:
            return None
        splits[0]['o2'][0] += 1000
    elif clause in ('inadmissible', 'oneside', 'empty', 'partition'):
        if not splits or S['inst']['dirs'] or S['mode'] == 'rank':
            return None
        splits[0]['t2'] = 2**28
        S['queries'], S['variants'], S['hasprint'] = [], [], False
    elif clause == 'trivial':
        c = [d for d in leaves if d['n'] == 1 and d['p']]
        if not c or S['inst']['dirs'] or S['hastwin']:
            return None
        i = N.index(c[-1])
        d = c[-1]
        d['leaf'], d['f'], d['t2'] = False, 1, 0
        for k in (2, 1):
            e = copy.deepcopy(d)
            e['leaf'], e['p'], e['f'] = True, d['p'] + [k], 0
            N.insert(i + 1, e)
        S['queries'], S['variants'], S['hasprint'], S['hasimp'] = [], [], False, False
    else:
        return None            # 'notbest' is covered by 'missed' and the design check
    return S


def run(records, clauses, per=4):
    out, bad = {}, []
    for c in clauses:
        k = 0
        for S in records:
            if k >= per:
                break
            R = corrupt(S, c)
            if R is not None:
                k += 1
                R['id'] = 'neg/%s/%d' % (c, k)
                bad.append(R)
    if not bad:
        return out
    v, _ = tlc.check_traces(bad, clauses)
    hit = {}
    for i, t in v:
        hit.setdefault(i, []).append(t)
    for R in bad:
        c = R['id'].split('/')[1]
        a = out.setdefault(c, [0, 0])
        a[1] += 1
        if R['id'] in hit and any(c in t for t in hit[R['id']]):
            a[0] += 1
    for c, (a, b) in out.items():
        if a == 0:
            raise tlc.TLCError('negative control: no corrupted record was rejected for clause %s' % c)
    return {c: '%d of %d rejected' % tuple(a) for c, a in out.items()}
