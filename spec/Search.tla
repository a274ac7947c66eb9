------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The built-in hyperplane searches as processes that evaluate directions. *)
(* A record is one run: the settings, the evaluated points (fixed point,   *)
(* 10^-6; exact integers for two-point search) with the values returned to *)
(* the search, and the points of runs with the same (`again`) and another  *)
(* seed (`other`).  The machine of each search consumes one evaluation per *)
(* step; at the end it must have come to rest.                             *)
(***************************************************************************)
EXTENDS BigNat, TLC, Anneal, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
One == 1000000
Stall == 50        \* generations without improvement that end simulated annealing

VARIABLES r,       \* run
          k,       \* evaluations consumed
          gen,     \* generation of simulated annealing (0: scan)
          left,    \* evaluations left in this generation
          kept,    \* retained values
          new,     \* values of this generation
          stall,   \* generations without improvement
          spread,  \* size of the perturbation, 10^-6
          moves,   \* coordinates whose perturbation is known (not clipped, retained point certain)
          far,     \* of these, those moved by more than half of the spread
          done
vars == <<r, k, gen, left, kept, new, stall, spread, moves, far, done>>

AbsI(i) == IF i < 0 THEN -i ELSE i
Gets(b, name) == IF b THEN {} ELSE {name}
Report(S, what, vs) == IF vs = {} THEN TRUE ELSE PrintT(<<"VIOL", S.id, what, vs>>)

HyperCube(S) == S.opt \in {"quasi", "annealing", "de", "gradient", "optuna"}
Distinct(S) == {S.labels[i] : i \in 1..Len(S.labels)}

\* evaluations the search is to make (-1: not fixed)
Budget(S) == CASE S.opt = "random" -> S.n
               [] S.opt = "quasi" -> S.n
               [] S.opt = "optuna" -> S.n
               [] S.opt = "twopoint" -> IF Cardinality(Distinct(S)) > 1 THEN S.n ELSE 0
               [] OTHER -> -1

Init == /\ r \in 1..Len(Runs)
        /\ k = 0 /\ gen = 0 /\ left = Runs[r].scan /\ kept = {} /\ new = {} /\ stall = 0 /\ spread = One /\ moves = 0 /\ far = 0 /\ done = FALSE

(****************************** single points ******************************)

Space(S, p) == Len(p) = (IF HyperCube(S) THEN S.nf - 1 ELSE S.nf)
               /\ (HyperCube(S) => \A j \in 1..Len(p) : p[j] >= 0 /\ p[j] <= One)

TwoPoints(S, p) ==
  \E i, j \in 1..Len(S.rows) :
     /\ S.labels[i] # S.labels[j]
     /\ \/ \A f \in 1..Len(p) : p[f] = S.rows[i][f] - S.rows[j][f]
        \/ \A f \in 1..Len(p) : p[f] = S.rows[j][f] - S.rows[i][f]

\* the additive recurrence x, x + a, x + 2a, ... modulo 1
ModDiff(a, b) == LET d == AbsI(a - b) % One IN IF d > One \div 2 THEN One - d ELSE d
Recurrence(S, n, p) ==
  IF n < 3 THEN TRUE
  ELSE \A j \in 1..Len(p) : ModDiff(p[j] - S.pts[n - 1][j], S.pts[n - 1][j] - S.pts[n - 2][j]) <= 8

\* a = (g, g^2, ...) with g^d + g^(d+1) = 1
RECURSIVE BPow(_, _)
BPow(b, n) == IF n = 0 THEN <<1>> ELSE BigMul(b, BPow(b, n - 1))
NearBig(a, b, tol) == BigLE(IF BigLE(a, b) THEN BigSub(b, a) ELSE BigSub(a, b), tol)
Generalised(S) ==
  LET d == S.nf - 1
      a(j) == (S.pts[2][j] - S.pts[1][j] + One) % One
      g == BigOf(a(1))
      O == BigOf(One)
  IN Len(S.pts) < 2 \/ d < 1 \/
     /\ NearBig(BigAdd(BigMul(BPow(g, d), O), BPow(g, d + 1)), BPow(O, d + 1), BigMul(BPow(O, d), BigOf(30 * d)))
     /\ \A j \in 1..d : NearBig(BPow(g, j), BigMul(BigOf(a(j)), BPow(O, j - 1)), BigMul(BPow(O, j - 1), BigOf(30 * d)))

\* simulated annealing: a retained point, moved by at most the spread
Perturbed(S, n, p) ==
  gen = 0 \/ \E j \in 1..n - 1 : S.vals[j] \in kept /\ \A f \in 1..Len(p) : AbsI(p[f] - S.pts[j][f]) <= spread + 40

PointViol(S, n) ==
  LET p == S.pts[n]
  IN UNION {Gets(Space(S, p), "space"),
            Gets(Budget(S) < 0 \/ n <= Budget(S), "budget"),
            Gets(S.opt # "twopoint" \/ TwoPoints(S, p), "two points"),
            Gets(S.opt # "quasi" \/ ~Space(S, p) \/ Recurrence(S, n, p), "sequence"),
            Gets(S.opt # "annealing" \/ ~done, "goes on"),
            Gets(S.opt # "annealing" \/ done \/ ~Space(S, p) \/ Perturbed(S, n, p), "perturbation")}

(******************************** machines *********************************)

\* the retained points: of those with the same value, the last one
LastOf(S, v, n) == Max({j \in 1..n : S.vals[j] = v})

\* the perturbation of point n, if its origin is certain
Moved(S, n) ==
  LET p == S.pts[n]
      ok == gen > 0 /\ spread > 2000 /\ Space(S, p)
      O == IF ~ok THEN {}
           ELSE {j \in UNION {{LastOf(S, v, n - 1), LastOf(S, v, n - 1 - (S.keep - left))} : v \in kept} : \A f \in 1..Len(p) : AbsI(p[f] - S.pts[j][f]) <= spread + 40}
      F == IF Cardinality(O) # 1 THEN {} ELSE {f \in 1..Len(p) : p[f] > 0 /\ p[f] < One}
      o == CHOOSE j \in O : TRUE
  IN /\ moves' = moves + Cardinality(F)
     /\ far' = far + Cardinality({f \in F : 2 * AbsI(p[f] - S.pts[o][f]) > spread})

\* uniform perturbations: half of them are far ones (a third at the border of the hypercube)
Uniform == moves < 300 \/ (5 * far >= moves /\ 5 * far <= 4 * moves)

Anneal1(S, n) ==
  LET a == [gen |-> gen, left |-> left, kept |-> kept, new |-> new, stall |-> stall, done |-> done]
      b == AStep(a, S.vals[n], S.keep, Stall)
  IN IF done THEN UNCHANGED <<gen, left, kept, new, stall, spread, moves, far, done>>
     ELSE /\ gen' = b.gen /\ left' = b.left /\ kept' = b.kept /\ new' = b.new /\ stall' = b.stall /\ done' = b.done
          /\ Moved(S, n)
          /\ spread' = IF b.gen = gen THEN spread ELSE IF gen = 0 THEN One ELSE (spread \div 1000) * S.sp + ((spread % 1000) * S.sp) \div 1000

Step(S) ==
  /\ k < Len(S.pts)
  /\ Report(S, <<"evaluation", k + 1>>, PointViol(S, k + 1))
  /\ IF S.opt = "annealing" THEN Anneal1(S, k + 1) ELSE UNCHANGED <<gen, left, kept, new, stall, spread, moves, far, done>>
  /\ k' = k + 1

Differ(S) == S.other = <<>> \/ \E i \in 1..Len(S.pts) : i > Len(S.other) \/ S.pts[i] # S.other[i]

End(S) ==
  /\ k = Len(S.pts)
  /\ Report(S, <<"end">>, UNION {
       Gets(Budget(S) < 0 \/ Len(S.pts) = Budget(S), "budget"),
       Gets(S.opt # "annealing" \/ done, "stopped early"),
       Gets(S.opt # "annealing" \/ Uniform, "perturbation"),
       Gets(S.opt # "gradient" \/ Len(S.pts) >= S.n, "budget"),
       Gets(S.opt # "quasi" \/ (\E i \in 1..Len(S.pts) : ~Space(S, S.pts[i])) \/ Generalised(S), "sequence"),
       Gets(S.ended, "does not end"),
       Gets(S.again = S.pts, "same seed"),
       Gets(S.pts = <<>> \/ Differ(S), "seed ignored")})
  /\ k' = k + 1 /\ UNCHANGED <<gen, left, kept, new, stall, spread, moves, far, done>>

Next == LET S == Runs[r] IN (Step(S) \/ End(S)) /\ UNCHANGED r
Spec == Init /\ [][Next]_vars

View == <<r, k>>
\* the machine itself: never more values retained than asked for, stall bounded
Sane == Cardinality(kept) <= Runs[r].keep /\ stall <= Stall
=============================================================================
