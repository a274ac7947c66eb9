"""check.py <property> : decides one property of /repo's working tree.

Exit 0: held on everything explored.  Exit 1 with "VIOLATION property=<id> replay=<path>": broken.
Anything else is an error of the machinery."""
import copy
import json
import multiprocessing
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from common import *  # noqa
import tlc

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
if 'thorough' in sys.argv[2:]:
    TIER = 'thorough'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def record_all(scs, procs=8, limit=700):
    """Runs the code under test on all scenarios in worker processes."""
    import observe
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(procs, maxtasksperchild=200)
    res = []
    try:
        jobs = [(sc, pool.apply_async(observe.run_one, (sc,))) for sc in scs]
        t_end = time.time() + limit
        for sc, j in jobs:
            try:
                res.append(j.get(max(1, t_end - time.time())))
            except multiprocessing.TimeoutError:
                res.append(('fail', sc['id'], 'no answer (hang or crash of the interpreter)'))
    finally:
        pool.terminate()
    return res


def validate(records, clauses, timeout=850):
    """TreeTrace on all records; a record that TLC cannot evaluate at all is isolated."""
    try:
        return tlc.check_traces(records, clauses, timeout=timeout)
    except tlc.TLCError as e:
        if len(records) == 1:
            return [(records[0]['id'], 'the record cannot be evaluated by the specification: ' + str(e)[-1500:])], dict(states=0, distinct=0, wall=0)
        h = len(records) // 2
        v1, r1 = validate(records[:h], clauses)
        v2, r2 = validate(records[h:], clauses)
        return v1 + v2, dict(states=r1['states'] + r2['states'], distinct=r1['distinct'] + r2['distinct'], wall=r1['wall'] + r2['wall'])


def model_check(cfgs):
    """The design itself, on all instances of the small scopes."""
    states = trans = 0
    for c in cfgs:
        mod = 'MCBayesTree' if not c.startswith('@') else c.split(':')[0][1:]
        name = c.split(':')[-1].lstrip('@')
        txt = open(os.path.join(VERIF, 'spec', 'mc', name + '.cfg')).read()
        r = tlc.run(mod, txt, timeout=600)
        if not r['ok']:
            raise tlc.TLCError('design check %s failed:\n%s' % (c, r['out'][-3000:]))
        states += r['distinct']
        trans += r['states']
    return states, trans


def default(o):
    if isinstance(o, set):
        return sorted(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    return str(o)


def finish(prop, viols, evidence, t0, save):
    """viols: [(key, text)]"""
    known = known_findings(prop)
    new = []
    for key, text in viols:
        hit = [d for k, d in known if k == key]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            new.append((key, text))
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=prop, tier=TIER, seed=SEED, level='model_checking', coverage=evidence, wall_s=round(time.time() - t0, 2), violations=len(new))
    ev['assumptions'] = evidence.pop('assumptions', [])
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=default)
    if not new:
        print('%s held: %s' % (prop, {k: v for k, v in evidence.items() if isinstance(v, (int, bool))}))
        return 0
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', new[0][0])))
    with open(path, 'w') as f:
        json.dump(save(new[0][0]), f, indent=1, default=default)
    for key, text in new[:5]:
        print('  %s: %s' % (key, text[:1500]))
    print('%d violations' % len(new))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def elsewhere(scs, recd):
    """The same scenarios in a process with another hash seed, as a variant of each fit."""
    import observe
    tmp = tempfile.mkdtemp(prefix='elsewhere_')
    try:
        with open(tmp + '/in', 'wb') as f:
            pickle.dump([dict(sc, variants=[]) for sc in scs], f)
        env = dict(os.environ, PYTHONHASHSEED=str(4711 + SEED))
        p = subprocess.run([sys.executable, os.path.join(HERE, 'elsewhere.py'), tmp + '/in', tmp + '/out'], env=env, capture_output=True, text=True)
        if p.returncode:
            raise HarnessBug('elsewhere: ' + p.stderr[-2000:])
        with open(tmp + '/out', 'rb') as f:
            other = {r[1]: r for r in pickle.load(f)}
    finally:
        shutil.rmtree(tmp)
    for i, r in recd.items():
        o = other[i]
        nodes, ans = [], []
        if o[0] == 'ok':
            o = o[2]
            nodes = [{k: d[k] for k in observe.KEEP} for d in o['nodes']]
            ans = o['ans']
            a, b = r['inst']['dirs'], o['inst']['dirs']
            for d in nodes if b else []:
                d['f'] = a.index(b[d['f'] - 1]) + 1 if 0 < d['f'] <= len(b) and b[d['f'] - 1] in a else 0
        r['variants'].append(dict(what='another process', loose=False, anynames=False, untouched=True, nodes=nodes, ans=ans))


def tree_check(prop):
    import props
    import controls
    t0 = time.time()
    P = props.TREE[prop]
    m = 3 if TIER == 'quick' else 8
    rng = np.random.RandomState([SEED, int(prop[1:])])
    scs = props.number(prop, P['gen'](rng, m), P['parts'])
    res = record_all(scs, limit=400 if TIER == 'quick' else 3000)
    by = {sc['id']: sc for sc in scs}
    recs = [r[2] for r in res if r[0] == 'ok']
    recd = {r['id']: r for r in recs}
    if P.get('elsewhere'):
        elsewhere(scs, recd)
    viols = [(r[1], 'the code failed on well-formed input: ' + r[2]) for r in res if r[0] == 'fail']
    info = dict(states=0, distinct=0, wall=0)
    if recs:
        chunk = 3000
        for i in range(0, len(recs), chunk):
            v, r = validate(recs[i:i + chunk], P['clauses'])
            viols += v
            info['states'] += r['states']
            info['distinct'] += r['distinct']
    ms, mt = (0, 0)
    neg = {}
    if not viols:
        ms, mt = model_check(P['mc'])
        neg = controls.run(recs, P['clauses'])
    nsplit = sum(1 for r in recs for nd in r['nodes'] if not nd['leaf'])
    ev = dict(states=info['distinct'] + ms, transitions=max(0, info['distinct'] - len(recs)) + mt,
              traces_validated_against_impl=len(recs), scenarios=len(scs), design_states=ms,
              nodes=sum(len(r['nodes']) for r in recs), splits=nsplit, depth_max=max([r['depth'] for r in recs] or [0]),
              queries=sum(len(r['queries']) for r in recs), variants=sum(len(r['variants']) for r in recs),
              pruned_away=sum(len(r['nodes']) - len(r['twin']) for r in recs if r['hastwin']),
              printed_lines=sum(len(r['lines']) for r in recs), clauses=P['clauses'], negative_controls=neg,
              samples=[{k: (v if k != 'inst' else {a: b for a, b in v.items() if a not in ('vals', 'ulps')}) for k, v in recd[i].items() if k in ('id', 'inst', 'nodes')} for i in list(recd)[-1:]],
              assumptions=['binary64 arithmetic of numpy; decisions closer than 1e-6 (relative) count as ties'])

    def save(key):
        sc = dict(by[key])
        return dict(property=prop, scenario=sc, record=recd.get(key), verdicts=[t for k, t in viols if k == key])
    return finish(prop, viols, ev, t0, save)


def replay(path):
    import observe
    d = json.load(open(path))
    sc = d['scenario']
    sc['parts'] = set(sc['parts'])
    r = observe.run_one(sc)
    if r[0] != 'ok':
        print(r[2])
        return 1
    import props
    v, _ = validate([r[2]], props.TREE[d['property']]['clauses'])
    for x in v:
        print(x)
    return 1 if v else 0


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    import props
    if prop in props.TREE:
        return tree_check(prop)
    mod = {'C10': 'lifecycle', 'C11': 'validation', 'C18': 'search', 'C19': 'sphere'}[prop]
    return __import__(mod).check(prop, SEED, TIER)


if __name__ == '__main__':
    sys.exit(main())
