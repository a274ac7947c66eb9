------------------------------ MODULE MCAnneal ------------------------------
(***************************************************************************)
(* The annealing machine under every possible sequence of values.          *)
(***************************************************************************)
EXTENDS Anneal

CONSTANTS NVal, MaxScan, MaxKeep, Patience

VARIABLES a, seen, n, scan, keep
vars == <<a, seen, n, scan, keep>>

MCInit == /\ scan \in 1..MaxScan /\ keep \in 1..MaxKeep
          /\ a = AStart(scan) /\ seen = {} /\ n = 0
Evaluate == /\ ~a.done
            /\ \E v \in 1..NVal : a' = AStep(a, v, keep, Patience) /\ seen' = seen \cup {v}
            /\ n' = n + 1 /\ UNCHANGED <<scan, keep>>
MCSpec == MCInit /\ [][Evaluate]_vars /\ WF_vars(Evaluate)

\* between generations exactly the best values seen so far are retained, whatever was discarded before
KeepsBest == (a.new = {} /\ a.left = keep /\ a.gen > 0) => a.kept = Lowest(seen, keep)
\* the best value is never lost
NeverLost == a.gen > 0 => Min(a.kept \cup a.new) = Min(seen)
Counted == n = IF a.gen = 0 THEN scan - a.left ELSE scan + keep * (a.gen - 1) + (keep - a.left)
\* every improvement lowers the best of NVal values, and in between there are less than Patience generations
Bounded == a.gen <= 1 + NVal * Patience
Rests == a.done <=> a.stall >= Patience
Stops == <>a.done
=============================================================================
