----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* Which calls are refused.  One model, fitted on `nf` features or not     *)
(* (0); every behaviour is one call whose arguments are described by their *)
(* shapes, containers and labels; `res` is what the caller must see:       *)
(* "ok", "refused" (ValueError) or "any" (not promised).  A refused call   *)
(* leaves the model as it was.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Kinds,     \* subset of {"clf", "reg"}
  Part,      \* "fit", "labels" or "query"
  Dims,      \* extents of the axes of the features
  YDims,     \* extents of the axes of the targets
  MaxRows    \* targets of the labels part

VARIABLES nf, call, nf0
vars == <<nf, call, nf0>>

Shapes(D, m) == UNION {[1..k -> D] : k \in 0..m}
NoCall == [what |-> "none"]

(******************************** features *********************************)

\* rows and columns of a feature argument; a vector is one row
IsTable(s) == Len(s) \in {1, 2}
Rows(s) == IF Len(s) = 1 THEN 1 ELSE s[1]
Cols(s) == s[Len(s)]

(******************************** targets **********************************)

\* one column: at most one axis has an extent other than one
Wide(s) == {k \in 1..Len(s) : s[k] # 1}
IsColumn(s) == Len(s) >= 1 /\ Cardinality(Wide(s)) <= 1
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Height(s) == Prod(s)

\* labels are given doubled (1 is a half); the permitted sets are {0..K-1}, K given by the prior,
\* or any K >= 2 without one (K = 0)
GoodLabels(L, K) ==
  LET n == IF K > 0 THEN K ELSE IF Cardinality(L) > 2 THEN Cardinality(L) ELSE 2
  IN L = {2 * c : c \in 0..n - 1}

(********************************** calls **********************************)

\* what fit must do with well- or ill-formed arguments; the labels are L
FitResult(kind, xs, ys, K, L) ==
  IF ~IsTable(xs) THEN "refused"
  ELSE IF ~IsColumn(ys) THEN (IF ys = <<>> /\ Rows(xs) = 1 THEN "any" ELSE "refused")
  ELSE IF Height(ys) # Rows(xs) THEN "refused"
  ELSE IF Rows(xs) < 2 \/ Cols(xs) = 0 \/ Len(ys) > 2 THEN "any"
  ELSE IF kind = "clf" /\ ~GoodLabels(L, K) THEN "refused" ELSE "ok"

\* the labels 0, 1, 0, 1, ... of a target argument of m elements
AltLabels(m) == IF m = 0 THEN {} ELSE IF m = 1 THEN {0} ELSE {0, 2}

XConts(s) == {"array"} \cup (IF Len(s) >= 1 THEN {"list"} ELSE {})
             \cup (IF Len(s) = 2 THEN {"df", "csr", "csc"} ELSE {})

FitShapes ==
  \E kind \in Kinds, xs \in Shapes(Dims, 3), ys \in Shapes(YDims, 3) :
    \E c \in XConts(xs) :
      /\ (Len(ys) = 3 => c = "array" /\ Len(xs) <= 2)
      /\ (Len(xs) = 3 => Len(ys) = 1 /\ \A k \in 1..3 : xs[k] > 0)
      \* the extent of nested lists without elements cannot be expressed
      /\ (c = "list" => \A k \in 1..Len(xs) - 1 : xs[k] > 0)
      /\ LET r == FitResult(kind, xs, ys, 0, AltLabels(Prod(ys)))
         IN /\ call' = [what |-> "fit", kind |-> kind, xs |-> xs, cont |-> c, ys |-> ys, K |-> 0, labels |-> <<>>, res |-> r, nf |-> nf]
            /\ nf' = IF r = "ok" THEN Cols(xs) ELSE nf

FitLabels ==
  \E n \in 2..MaxRows : \E l \in [1..n -> {-2, -1, 0, 1, 2, 3, 4, 6, 99}], K \in {0, 2, 3, 4} :
      LET r == FitResult("clf", <<n, 2>>, <<n>>, K, {l[k] : k \in 1..n})
      IN /\ \A k \in 1..n - 1 : l[k] <= l[k + 1]
         /\ call' = [what |-> "fit", kind |-> "clf", xs |-> <<n, 2>>, cont |-> "array", ys |-> <<n>>, K |-> K, labels |-> l, res |-> r, nf |-> nf]
         /\ nf' = IF r = "ok" THEN 2 ELSE nf

QueryShapes ==
  \E kind \in Kinds, xs \in Shapes(Dims, 3), q \in {"predict", "proba", "paths", "raw"} :
    \E c \in XConts(xs) :
      /\ (q = "proba" => kind = "clf")
      /\ (Len(xs) = 3 => \A k \in 1..3 : xs[k] > 0)
      /\ (c = "list" => \A k \in 1..Len(xs) - 1 : xs[k] > 0)
      /\ call' = [what |-> q, kind |-> kind, xs |-> xs, cont |-> c, ys |-> <<>>, K |-> 0, labels |-> <<>>, nf |-> nf,
                  res |-> IF nf = 0 \/ ~IsTable(xs) \/ Cols(xs) # nf THEN "refused" ELSE "ok"]
      /\ UNCHANGED nf

QueryTree ==
  \E kind \in Kinds, q \in {"importance", "depth", "leaves", "print"} :
      /\ call' = [what |-> q, kind |-> kind, xs |-> <<>>, cont |-> "array", ys |-> <<>>, K |-> 0, labels |-> <<>>, nf |-> nf,
                  res |-> IF nf = 0 /\ q # "print" THEN "refused" ELSE "ok"]
      /\ UNCHANGED nf

Init == nf \in {0, 1, 2, 3} /\ call = NoCall /\ nf0 = nf
Next ==
  /\ call = NoCall
  /\ UNCHANGED nf0
  /\ CASE Part = "fit" -> FitShapes
       [] Part = "labels" -> FitLabels
       [] Part = "query" -> QueryShapes \/ QueryTree

(******************************* properties ********************************)
RefusedUnchanged == call # NoCall /\ call.res = "refused" => nf = nf0
QueriesChangeNothing == call # NoCall /\ call.what # "fit" => nf = nf0
FittedStays == nf0 > 0 => nf > 0
Emit == call # NoCall => PrintT("CALL" \o ToJson(call))
=============================================================================
