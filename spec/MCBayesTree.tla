----------------------------- MODULE MCBayesTree -----------------------------
(***************************************************************************)
(* Exhaustive check of the design: all data sets of a small scope, grown   *)
(* (ties in any way), then pruned (in any order).                          *)
(***************************************************************************)
EXTENDS BayesTree

CONSTANTS MaxRows, NFeatures, MaxX, Kind, Ys, Deltas, PPs, Precs, Priors

VARIABLE full

Xs == [1..NFeatures -> 0..MaxX]
RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = <<>> THEN TRUE
               ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LexLE(Tail(a), Tail(b)))
RowSeqs(n) == {s \in [1..n -> Xs \X Ys] : \A i \in 1..(n - 1) : LexLE(s[i][1] \o <<s[i][2]>>, s[i + 1][1] \o <<s[i + 1][2]>>)}

Mk(rows, pr, d, pp, prec) ==
  [kind |-> Kind, X |-> [i \in DOMAIN rows |-> rows[i][1]], y |-> [i \in DOMAIN rows |-> rows[i][2]],
   w |-> [i \in DOMAIN rows |-> 1], prior |-> pr.p, b |-> pr.b, ab |-> pr.ab,
   dn |-> d[1], dd |-> d[2], pn |-> pp[1], pd |-> pp[2],
   prec2 |-> [f \in 1..NFeatures |-> prec], nd |-> NFeatures, level0 |-> 0,
   vals |-> <<>>, precn |-> <<>>]

MCInit ==
  /\ \E n \in 2..MaxRows : \E rows \in RowSeqs(n) : \E pr \in Priors : \E d \in Deltas : \E pp \in PPs : \E prec \in Precs :
        inst = Mk(rows, pr, d, pp, prec)
  /\ tree = RootTree(inst) /\ phase = "grow" /\ full = <<>>
MCNext == /\ Next
          /\ full' = IF phase' = "grown" THEN tree ELSE full
Done == phase = "pruned" /\ UNCHANGED <<vars, full>>
MCSpec == MCInit /\ [][MCNext]_<<vars, full>> /\ WF_<<vars, full>>(MCNext)
Confluent == phase = "pruned" =>
  LET r == PruneFix(full, Pids(full))
  IN DOMAIN r = DOMAIN tree /\ \A p \in DOMAIN r : r[p].st = tree[p].st /\ r[p].rows = tree[p].rows
\* pruning never changes the prediction of a class whose leaves agree: with a uniform prior a
\* collapsed leaf still predicts what both of its children predicted
UniformKeepsPrediction ==
  (phase = "pruned" /\ inst.kind = "clf" /\ inst.dn = 0 /\ Cardinality(Range(inst.prior.a)) = 1) =>
    \A r \in RowsOf(inst) :
      Predicted(inst, tree[Route(tree, inst.X[r])]) = Predicted(inst, full[Route(full, inst.X[r])])
\* the candidates computed with running sums are those of the definition
SameCandidates ==
  \A p \in DOMAIN tree :
    LET nd == tree[p]
        T == TLCEval(Tables(inst, nd.prior, nd.rows))
        lev == Level(inst, p)
    IN Candidates(inst, T, nd.prior, nd.rows, lev) = CandidatesDef(inst, T, nd.prior, nd.rows, lev)
Terminates == <>(phase = "pruned")

ClfPriors == {[p |-> [a |-> <<1, 1>>], b |-> 1, ab |-> 1], [p |-> [a |-> <<1, 4>>], b |-> 2, ab |-> 1]}
Clf3Priors == {[p |-> [a |-> <<1, 1, 1>>], b |-> 2, ab |-> 1]}
RegPriors == {[p |-> [k |-> 2, t |-> 0, q |-> <<2>>, A |-> 2], b |-> 2, ab |-> 2],
              [p |-> [k |-> 2, t |-> 2, q |-> <<3>>, A |-> 4], b |-> 2, ab |-> 2]}
NoDelta == {<<0, 1>>}
SomeDelta == {<<0, 1>>, <<1, 2>>}
OnePP == {<<9, 10>>}
TwoPP == {<<1, 2>>, <<9, 10>>}
NoPrec == {0}
SomePrec == {0, 2}
YClf == {1, 2}
YClf3 == {1, 2, 3}
YReg == {-1, 0, 2}
YReg2 == {0, 3}
=============================================================================
