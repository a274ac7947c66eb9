------------------------------- MODULE Anneal -------------------------------
(***************************************************************************)
(* Generations of simulated annealing, as far as they depend on values     *)
(* only.  One evaluation at a time is consumed by AStep.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt

\* the n smallest elements of a set of integers
RECURSIVE Lowest(_, _)
Lowest(V, n) == IF n = 0 \/ V = {} THEN {} ELSE LET m == Min(V) IN {m} \cup Lowest(V \ {m}, n - 1)

\* gen: generation (0: scan); left: evaluations left in it; kept: retained values; new: values of this generation;
\* stall: generations without improvement
AStart(scan) == [gen |-> 0, left |-> scan, kept |-> {}, new |-> {}, stall |-> 0, done |-> FALSE]

AStep(a, v, keep, patience) ==
  IF a.done THEN a
  ELSE IF a.left > 1 THEN [a EXCEPT !.left = @ - 1, !.new = @ \cup {v}]
  ELSE LET all == a.kept \cup a.new \cup {v}
           better == a.gen = 0 \/ Min(all) < Min(a.kept)
           st == IF better THEN 0 ELSE a.stall + 1
       IN [gen |-> a.gen + 1, left |-> keep, kept |-> Lowest(all, keep), new |-> {}, stall |-> st, done |-> st >= patience]
=============================================================================
