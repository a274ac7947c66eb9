------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Models as objects: what a history of calls may leave behind.            *)
(*                                                                         *)
(* A model is exactly its constructor parameters (par) plus the parameters *)
(* and data of its last successful fit (fit, Nil before the first one).    *)
(* Every behaviour of this module is a call history; h records each call   *)
(* together with the observation the caller must make.  Histories are      *)
(* printed at length MaxLen and replayed on the real classes.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Classes,   \* subset of {"pc", "hc", "pr", "hr"}: axis-aligned/hyperplane, classification/regression
  NPar,      \* parameter sets 1..NPar
  Data,      \* data sets that may occur
  MaxObj,    \* models in a history
  MaxLen,    \* calls in a history
  Reject,    \* kinds of refused fits
  Abort,     \* kinds of interrupted fits
  FitKinds,  \* how arguments of a fit are passed: "plain" (new objects) or "refill" (the arrays of an
             \* earlier fit, overwritten in place by the caller)
  Queries,   \* kinds of queries
  KOfPar,    \* number of classes of the prior of a parameter set (0: default prior)
  KOfData,   \* number of classes of a data set
  Ops        \* calls that may occur

VARIABLES objs, h
vars == <<objs, h>>

Nil == [par |-> 0, data |-> 0]
Obj(c, p, f) == [cls |-> c, par |-> p, fit |-> f]
IsClf(c) == c \in {"pc", "hc"}

\* a data set that the model must accept
Accepts(o, d) == ~IsClf(o.cls) \/ KOfPar[o.par] = 0 \/ KOfPar[o.par] = KOfData[d]

\* the state of all models as an observer sees it
Seen(os) == [i \in 1..Len(os) |-> os[i]]

Log(op, o, arg, kind, res, os) ==
  h' = Append(h, [op |-> op, o |-> o, arg |-> arg, kind |-> kind, res |-> res, after |-> Seen(os)])

Init == objs = <<>> /\ h = <<>>

New(c, p) ==
  /\ Len(objs) < MaxObj
  /\ objs' = Append(objs, Obj(c, p, Nil))
  /\ Log("new", Len(objs) + 1, p, c, "ok", objs')

\* a fit depends on what its arguments hold at the time of the call, not on which objects they are
Fit(o, d, k) ==
  /\ LET ok == Accepts(objs[o], d)
     IN /\ objs' = IF ok THEN [objs EXCEPT ![o].fit = [par |-> objs[o].par, data |-> d]] ELSE objs
        /\ Log("fit", o, d, k, IF ok THEN "self" ELSE "ValueError", objs')

\* refused: malformed arguments
FitRejected(o, d, k) == UNCHANGED objs /\ Log("fit", o, d, k, "ValueError", objs)

\* interrupted: the k-th progress message cannot be written, or the process is interrupted there
FitAborted(o, d, k) == Accepts(objs[o], d) /\ UNCHANGED objs /\ Log("fit", o, d, k, "raises", objs)

\* so does a query; again = 1: asked once more with the same array, which holds the rows in reverse then
RowQueries == {"predict", "proba", "paths", "raw"}
Query(o, q, again) ==
  /\ UNCHANGED objs
  /\ again = 1 => q \in RowQueries
  /\ Log("query", o, again, q, IF objs[o].fit = Nil THEN (IF q = "print" THEN "unfitted" ELSE "ValueError") ELSE "answer", objs)

SetParams(o, p) ==
  /\ p # objs[o].par
  /\ objs' = [objs EXCEPT ![o].par = p]
  /\ Log("set_params", o, p, "", "self", objs')

GetParams(o) == UNCHANGED objs /\ Log("get_params", o, objs[o].par, "", "params", objs)

Clone(o) ==
  /\ Len(objs) < MaxObj
  /\ objs' = Append(objs, Obj(objs[o].cls, objs[o].par, Nil))
  /\ Log("clone", o, Len(objs) + 1, "", "ok", objs')

Copy(o, k) ==
  /\ Len(objs) < MaxObj
  /\ objs' = Append(objs, objs[o])
  /\ Log("copy", o, Len(objs) + 1, k, "ok", objs')

\* the caller overwrites everything it ever passed to or got from a model
Scribble == UNCHANGED objs /\ objs # <<>> /\ Log("scribble", 0, 0, "", "ok", objs)

Next ==
  /\ Len(h) < MaxLen
  /\ \/ \E c \in Classes, p \in 1..NPar : New(c, p)
     \/ \E o \in 1..Len(objs) :
          \/ \E d \in Data, k \in FitKinds : Fit(o, d, k)
          \/ \E d \in Data, k \in Reject : FitRejected(o, d, k)
          \/ \E d \in Data, k \in Abort : FitAborted(o, d, k)
          \/ \E q \in Queries, again \in 0..1 : Query(o, q, again)
          \/ "set_params" \in Ops /\ \E p \in 1..NPar : SetParams(o, p)
          \/ "get_params" \in Ops /\ GetParams(o)
          \/ "clone" \in Ops /\ Clone(o)
          \/ "copy" \in Ops /\ \E k \in {"deepcopy", "pickle"} : Copy(o, k)
     \/ "scribble" \in Ops /\ Scribble

Spec == Init /\ [][Next]_vars

(******************************* properties ********************************)

\* the last fit of o that succeeded, seen through copies, is what o stands for
RECURSIVE LastFit(_, _)
LastFit(o, n) ==
  IF n = 0 THEN Nil
  ELSE LET e == h[n]
       IN IF e.op = "fit" /\ e.o = o /\ e.res = "self" THEN [par |-> h[n].after[o].par, data |-> e.arg]
          ELSE IF e.op \in {"new", "clone"} /\ (IF e.op = "new" THEN e.o ELSE e.arg) = o THEN Nil
          ELSE IF e.op = "copy" /\ e.arg = o THEN LastFit(e.o, n - 1)
          ELSE LastFit(o, n - 1)
FitIsLastFit == \A o \in 1..Len(objs) : objs[o].fit = LastFit(o, Len(h))

\* only a successful fit, set_params or the creation of a model changes anything, and only there
OnlyTarget == [][\A o \in 1..Len(objs) : objs'[o] # objs[o] =>
                    LET e == h'[Len(h')] IN e.o = o /\ e.op \in {"fit", "set_params"} /\ e.res = "self"]_vars
FittedForever == [][\A o \in 1..Len(objs) : objs[o].fit # Nil => objs'[o].fit # Nil]_vars

\* prints complete histories; always TRUE
Emit == Len(h) = MaxLen => PrintT("HIST" \o ToJson([k \in 1..Len(h) |-> h[k]]))
=============================================================================
