"""Writes MANIFEST.json."""
import json
TREE='TLA+ specification of the fitted tree (BayesTree/TreeTrace.tla), TLC trace conformance of recorded fits and queries'
NOTE=('TLC evaluates the TLA+ specification on every recorded execution of the real code (fit, queries, printed form) for a seeded, adversarial scenario set, '
 'and model checks the specification itself exhaustively on small scopes; corrupted records must be rejected on every run. '
 'Trusted: TLC, the recorder in harness/, the rational arithmetic of BigFloat.tla; score comparisons closer than 1e-6 relative count as ties. ')
S={
'C01':(TREE,NOTE+'Evidence terms are recomputed in exact integer/rational arithmetic inside the specification.'),
'C02':(TREE,NOTE+'Evidence terms are recomputed in arbitrary-precision arithmetic inside the specification.'),
'C03':(TREE,NOTE+'Thresholds and gaps are compared by exact integer order and spacing (ulp positions), not in floating point.'),
'C04':(TREE,NOTE+'Sizes up to beyond 65536 rows.'),
'C05':(TREE,NOTE),
'C06':(TREE,NOTE+'Every query batch is also permuted, split and duplicated.'),
'C07':(TREE,NOTE),
'C08':(TREE,NOTE+'All variants of containers and number types are compared with the specification\'s single abstract data set.'),
'C09':(TREE,NOTE+'Refits, permutations, other processes and perturbed global random states.'),
'C10':('TLA+ state machine of a model\'s life (Lifecycle.tla), TLC-generated behaviours and random histories replayed into the real classes',
       'Every history up to a bound over the abstract operations, replayed on the four real classes, with arrays refilled in place between calls; observations compared with the specification\'s state after every step. Trusted: TLC, the fingerprint of a model in harness/lifecycle.py.'),
'C11':('TLA+ decision table of input validation (Validation.tla), enumerated shapes executed and judged by TLC',
       'The product of shapes, labels, containers, classes and fitted states is executed on the real code and the outcome of each call is judged by the specification.'),
'C12':(TREE,NOTE),
'C13':(TREE,NOTE+'The pruned tree is compared with the fixpoint the specification computes from the unpruned twin.'),
'C14':(TREE,NOTE),
'C15':(TREE,NOTE+'Projections are exact on integer lattices with recorded margins; rows within rounding of a plane may go either way.'),
'C16':(TREE,NOTE+'User-defined searches evaluate scripted directions whose values and best splits the specification recomputes.'),
'C17':(TREE,NOTE),
'C18':('TLA+ machines of the built-in searches (Search.tla, Anneal.tla), TLC trace conformance of recorded runs, TLC liveness of the annealing schedule',
       'The annealing schedule is model checked (safety and termination). Each recorded run of a built-in search is consumed evaluation by evaluation by the machine of that search. Points are recorded to 1e-6. Trusted: TLC and the recorder.'),
'C19':('TLA+ specification of equal-measure cells of the sphere (Sphere.tla), TLC evaluation of recorded images',
       'Images of seeded uniform points are counted by the specification in cells of equal, exactly known measure; counts must lie within seven standard deviations and their squared deviations within a total bound; rings, sectors and spheres of up to 24 dimensions.'),
}
NA={}
import os,sys
if not os.path.exists('/verif/spec/Sphere.tla'):
    S.pop('C19'); NA['C19']='a statement about a probability distribution over a continuum; not yet brought into a form a state-based specification decides'
m=dict(version=1,setup_cmd='/opt/venv/bin/python harness/setup.py',
 checks=[dict(property=k,quick_cmd='/opt/venv/bin/python harness/check.py %s'%k,thorough_cmd='/opt/venv/bin/python harness/check.py %s thorough'%k,technique=t,level='model_checking',level_note=n.strip()) for k,(t,n) in sorted(S.items())],
 not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes='No hooks in /repo. TLA+ with TLC; see DESIGN.md.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
