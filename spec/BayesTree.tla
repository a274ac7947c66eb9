------------------------------ MODULE BayesTree ------------------------------
(***************************************************************************)
(* Bayesian decision trees: how a tree is grown from the training rows,    *)
(* pruned, and queried.                                                    *)
(*                                                                         *)
(* An instance I (a record; constants of one behaviour) holds              *)
(*   kind   "clf" or "reg"                                                 *)
(*   X      row -> direction -> integer coordinate of the row along it.    *)
(*          Axis-aligned trees: the directions are the features.           *)
(*          Hyperplane trees: the directions are the evaluated normals.    *)
(*   w      row -> multiplicity                                            *)
(*   y      row -> target: class 1..K, or an integer                       *)
(*   prior  prior of the root (see Evidence), b (unit of the prior), ab    *)
(*   dn,dd  delta = dn/dd (strengthening of the prior in the children)     *)
(*   pn,pd  partition_prior = pn/pd                                        *)
(*   prec2  direction -> 2*split_precision in units of the coordinates     *)
(*   vals, precn  if the coordinates are only ranks: the values they stand *)
(*          for and split_precision (BigNats of a common unit), else <<>>  *)
(*   nd     number of features (enters the prior of a split)               *)
(*   level0 level of the root                                              *)
(* Thresholds are doubled coordinates, so that midpoints are integers.     *)
(*                                                                         *)
(* A tree maps paths (sequences over 1..2, <<>> the root) to nodes:        *)
(*   st     "open", "split" or "leaf"                                      *)
(*   rows   training rows that reach the node                              *)
(*   prior  prior in force at the node                                     *)
(*   up     prior with which its posterior is formed                       *)
(*   f, t2  direction and doubled threshold of a split                     *)
(***************************************************************************)
EXTENDS Evidence, FiniteSetsExt

VARIABLES inst, tree, phase

RowsOf(I) == DOMAIN I.X
Dirs(I) == DOMAIN I.prec2
Weight(I, R) == FoldSet(LAMBDA r, acc : acc + I.w[r], 0, R)
Targets(I, R) == {I.y[r] : r \in R}
Level(I, p) == I.level0 + Len(p)

(**************************** conjugate updates ****************************)

Counts(I, R) == [c \in 1..Len(I.prior.a) |-> Weight(I, {r \in R : I.y[r] = c})]
RegStats(I, R) ==
  [n |-> Weight(I, R),
   S |-> FoldSet(LAMBDA r, acc : acc + I.w[r] * I.y[r], 0, R),
   Q |-> FoldSet(LAMBDA r, acc : BigAdd(acc, MulSmall(BigSq(I.y[r]), I.w[r])), <<>>, R)]
Stats(I, R) == IF I.kind = "clf" THEN Counts(I, R) ELSE RegStats(I, R)
\* the same, row by row
NoStats(I) == IF I.kind = "clf" THEN TLCEval([c \in 1..Len(I.prior.a) |-> 0]) ELSE [n |-> 0, S |-> 0, Q |-> <<>>]
PlusRow(I, s, r) ==
  IF I.kind = "clf" THEN TLCEval([s EXCEPT ![I.y[r]] = @ + I.w[r]])
  ELSE [n |-> s.n + I.w[r], S |-> s.S + I.w[r] * I.y[r], Q |-> BigAdd(s.Q, MulSmall(BigSq(I.y[r]), I.w[r]))]
MinusStats(I, a, b) ==
  IF I.kind = "clf" THEN TLCEval([c \in 1..Len(a) |-> a[c] - b[c]])
  ELSE [n |-> a.n - b.n, S |-> a.S - b.S, Q |-> BigSub(a.Q, b.Q)]

\* prior pr updated with targets of statistics s at weight wn/dd
UpdateS(I, pr, s, wn) ==
  LET u == (I.b \div I.dd) * wn
  IN IF wn = 0 THEN pr
     ELSE IF I.kind = "clf"
     THEN [a |-> TLCEval([c \in 1..Len(pr.a) |-> pr.a[c] + u * s[c]])]
     ELSE [k |-> pr.k + u * s.n, t |-> pr.t + u * s.S, q |-> BigAdd(pr.q, MulSmall(s.Q, u)),
           A |-> pr.A + (I.ab \div I.dd) * wn * s.n]
Update(I, pr, R, wn) == IF wn = 0 THEN pr ELSE UpdateS(I, pr, Stats(I, R), wn)
Posterior(I, pr, R) == Update(I, pr, R, I.dd)
ChildPrior(I, pr, R) == Update(I, pr, R, I.dn)

(***************************** split candidates ****************************)

\* may a threshold separate the coordinates lo < hi of direction f?
Apart(I, f, lo, hi) ==
  IF I.vals = <<>> THEN 2 * (hi - lo) > I.prec2[f]
  ELSE BigCmp(BigSub(I.vals[f][hi + 1], I.vals[f][lo + 1]), I.precn) = 1

\* pairs <<lo, hi>> of neighbouring coordinates that are more than the precision apart
Gaps(I, R, f) ==
  LET V == {I.X[r][f] : r \in R}
      s == SetToSortSeq(V, <)
  IN {<<s[i], s[i + 1]>> : i \in {j \in 1..(Len(s) - 1) : Apart(I, f, s[j], s[j + 1])}}

Side(I, R, f, t2, c) == {r \in R : (2 * I.X[r][f] < t2) <=> (c = 1)}

Power(I) == IF I.kind = "clf" THEN 1 ELSE 2 * I.ab

\* evidence tables of a node: everything that does not depend on the candidate
Tables(I, pr, R) ==
  IF I.kind = "clf" THEN ClfTables(pr, I.b, Counts(I, R))
  ELSE GammaTable(pr.A, I.ab, Weight(I, R))
EvidS(I, T, pr, s) ==
  IF I.kind = "clf" THEN ClfEvidence(T, s)
  ELSE RegEvidence(pr, UpdateS(I, pr, s, I.dd), I.ab, s.n, T)
Evid(I, T, pr, R) == EvidS(I, T, pr, Stats(I, R))

\* partition prior s = (pn/pd)^(1+level):  no split scores (1-s), a split s/(positions*nd)
PriorNoSplit(I, lev) ==
  SPow([n |-> FBig(BigSub(BigPow(BigOf(I.pd), 1 + lev), BigPow(BigOf(I.pn), 1 + lev))),
        d |-> FBig(BigPow(BigOf(I.pd), 1 + lev))], Power(I))
PriorSplit(I, lev, npos) ==
  SPow([n |-> FBig(BigPow(BigOf(I.pn), 1 + lev)),
        d |-> FMulSmall(FMulSmall(FBig(BigPow(BigOf(I.pd), 1 + lev)), npos), I.nd)], Power(I))

NoSplitScore(I, T, pr, R, lev) == SMul(PriorNoSplit(I, lev), Evid(I, T, pr, R))
SplitScore(I, T, pr, R, lev, f, lo, npos) ==
  LET t2 == 2 * lo + 1
  IN SMul(PriorSplit(I, lev, npos),
          SMul(Evid(I, T, pr, Side(I, R, f, t2, 1)), Evid(I, T, pr, Side(I, R, f, t2, 2))))

\* the set of all candidates of a node: [f, lo, hi, s (score)]
CandidatesDef(I, T, pr, R, lev) ==
  UNION {LET G == Gaps(I, R, f)
         IN {[f |-> f, lo |-> g[1], hi |-> g[2], s |-> SplitScore(I, T, pr, R, lev, f, g[1], Cardinality(G))] : g \in G}
         : f \in Dirs(I)}

\* the same, with running sums along the ordered rows (MCBayesTree checks that it is the same)
Ordered(I, R, f) ==
  SetToSortSeq({<<I.X[r][f], r>> : r \in R}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Candidates(I, T, pr, R, lev) ==
  UNION {LET s == TLCEval(Ordered(I, R, f))
             c == TLCEval(FoldLeft(LAMBDA acc, e : Append(acc, PlusRow(I, acc[Len(acc)], e[2])), <<NoStats(I)>>, s))
             J == {j \in 1..(Len(s) - 1) : s[j][1] # s[j + 1][1] /\ Apart(I, f, s[j][1], s[j + 1][1])}
             ps == TLCEval(PriorSplit(I, lev, Cardinality(J)))
         IN IF J = {} THEN {} ELSE
            {[f |-> f, lo |-> s[j][1], hi |-> s[j + 1][1],
              s |-> SMul(ps, SMul(EvidS(I, T, pr, c[j + 1]), EvidS(I, T, pr, MinusStats(I, c[Len(c)], c[j + 1]))))] : j \in J}
         : f \in Dirs(I)}

\* nothing to decide: a non-root node with a single row or a single distinct target
Trivial(I, p, R) == p # <<>> /\ (Weight(I, R) = 1 \/ Cardinality(Targets(I, R)) = 1)

\* may the node be split at candidate c, given all candidates and the no-split score?
Best(I, c, C, ns) ==
  /\ ~ClearlyGreater(ns, c.s, Power(I))
  /\ \A o \in C : ~ClearlyGreater(o.s, c.s, Power(I))
\* may it be left a leaf?
NoGain(I, C, ns) == \A o \in C : ~ClearlyGreater(o.s, ns, Power(I))

(********************************** routing ********************************)

RECURSIVE RouteFrom(_, _, _)
\* leaf (path) of the coordinate vector x
RouteFrom(t, p, x) ==
  IF t[p].st # "split" THEN p
  ELSE RouteFrom(t, Append(p, IF 2 * x[t[p].f] < t[p].t2 THEN 1 ELSE 2), x)
Route(t, x) == RouteFrom(t, <<>>, x)

(******************************* predictions *******************************)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(t, k) == LET g == Gcd(AbsI(t), k) IN <<IF t < 0 THEN -(AbsI(t) \div g) ELSE t \div g, k \div g>>

\* predicted class: lowest-numbered class of maximal weight;
\* predicted value: posterior mean as a reduced fraction
Predicted(I, nd) ==
  LET po == Posterior(I, nd.up, nd.rows)
  IN IF I.kind = "clf"
     THEN CHOOSE c \in 1..Len(po.a) : \A e \in 1..Len(po.a) : po.a[e] < po.a[c] \/ (po.a[e] = po.a[c] /\ c <= e)
     ELSE Reduced(po.t, po.k)

(********************************** growing ********************************)

Node(st, R, pr, up) == [st |-> st, rows |-> R, prior |-> pr, up |-> up, f |-> 0, t2 |-> 0]
RootTree(I) == (<<>> :> Node("open", RowsOf(I), I.prior, I.prior))

ChildNode(I, p, nd, f, t2, c) ==
  LET R == Side(I, nd.rows, f, t2, c)
  IN IF Trivial(I, Append(p, c), R) THEN Node("leaf", R, ChildPrior(I, nd.prior, R), nd.prior)
     ELSE LET pr == ChildPrior(I, nd.prior, R) IN Node("open", R, pr, pr)

SplitTree(I, t, p, f, t2) ==
  [q \in DOMAIN t |-> IF q = p THEN [t[p] EXCEPT !.st = "split", !.f = f, !.t2 = t2] ELSE t[q]]
  @@ (Append(p, 1) :> ChildNode(I, p, t[p], f, t2, 1))
  @@ (Append(p, 2) :> ChildNode(I, p, t[p], f, t2, 2))
CloseTree(t, p) == [t EXCEPT ![p].st = "leaf"]

Open(t) == {p \in DOMAIN t : t[p].st = "open"}

Decide(p) ==
  LET nd == tree[p]
      T == TLCEval(Tables(inst, nd.prior, nd.rows))
      lev == Level(inst, p)
      ns == TLCEval(NoSplitScore(inst, T, nd.prior, nd.rows, lev))
      C == TLCEval(Candidates(inst, T, nd.prior, nd.rows, lev))
  IN \/ \E c \in C : /\ Best(inst, c, C, ns)
                     /\ tree' = SplitTree(inst, tree, p, c.f, c.lo + c.hi)
     \/ /\ NoGain(inst, C, ns)
        /\ tree' = CloseTree(tree, p)

Grow == /\ phase = "grow" /\ Open(tree) # {}
        \* nodes are independent; the implementation works depth first
        /\ Decide(CHOOSE p \in Open(tree) : \A q \in Open(tree) : Len(q) <= Len(p))
        /\ UNCHANGED <<inst, phase>>
Grown == phase = "grow" /\ Open(tree) = {} /\ phase' = "grown" /\ UNCHANGED <<inst, tree>>

(********************************** pruning ********************************)

\* pid: path -> prediction of the node, were it a leaf
Collapsible(t, pid) ==
  {p \in DOMAIN t : /\ t[p].st = "split"
                    /\ t[Append(p, 1)].st = "leaf" /\ t[Append(p, 2)].st = "leaf"
                    /\ pid[Append(p, 1)] = pid[Append(p, 2)]}
CollapseTree(t, p) ==
  [q \in DOMAIN t \ {Append(p, 1), Append(p, 2)} |->
     IF q = p THEN [t[p] EXCEPT !.st = "leaf", !.f = 0, !.t2 = 0] ELSE t[q]]
RECURSIVE PruneFix(_, _)
PruneFix(t, pid) ==
  LET C == Collapsible(t, pid)
  IN IF C = {} THEN t ELSE PruneFix(CollapseTree(t, CHOOSE p \in C : TRUE), pid)

Pids(t) == [p \in DOMAIN t |-> Predicted(inst, t[p])]
Collapse == /\ phase \in {"grown", "pruning"}
            /\ \E p \in Collapsible(tree, Pids(tree)) : tree' = CollapseTree(tree, p)
            /\ phase' = "pruning" /\ UNCHANGED inst
Pruned == /\ phase \in {"grown", "pruning"}
          /\ Collapsible(tree, Pids(tree)) = {}
          /\ phase' = "pruned" /\ UNCHANGED <<inst, tree>>

(******************************* tree measures *****************************)

Leaves(t) == {p \in DOMAIN t : t[p].st # "split"}
Depth(t) == Max({Len(p) : p \in DOMAIN t})

Next == Grow \/ Grown \/ Collapse \/ Pruned
vars == <<inst, tree, phase>>

(******************************* design properties *************************)

\* every row is in exactly one leaf, and the split nodes' children partition their rows
Partition ==
  /\ \A r \in RowsOf(inst) : Cardinality({p \in Leaves(tree) : r \in tree[p].rows}) = 1
  /\ \A p \in DOMAIN tree : tree[p].st = "split" =>
        /\ tree[Append(p, 1)].rows \cap tree[Append(p, 2)].rows = {}
        /\ tree[Append(p, 1)].rows \cup tree[Append(p, 2)].rows = tree[p].rows
NonEmpty == \A p \in DOMAIN tree : tree[p].rows # {}
PrefixClosed == \A p \in DOMAIN tree : p # <<>> => tree[SubSeq(p, 1, Len(p) - 1)].st = "split"
\* a training row is routed to the leaf that was trained with it
RoutingConsistent == \A p \in Leaves(tree) : \A r \in tree[p].rows : Route(tree, inst.X[r]) = p
Bounded == Cardinality(Leaves(tree)) <= Len(inst.X) /\ Depth(tree) < Len(inst.X) + 1
\* equal coordinate vectors can never be separated
EqualTogether == \A p \in Leaves(tree), r \in RowsOf(inst) :
  r \in tree[p].rows => \A s \in RowsOf(inst) : inst.X[s] = inst.X[r] => s \in tree[p].rows
\* without strengthening, the posteriors of the leaves add up to the posterior of the root
Additive ==
  (inst.dn = 0) =>
    LET L == Leaves(tree)
        Gain(f(_)) == FoldSet(LAMBDA p, acc : acc + f(Posterior(inst, tree[p].up, tree[p].rows)) - f(inst.prior), 0, L)
        Root(f(_)) == f(Posterior(inst, inst.prior, RowsOf(inst))) - f(inst.prior)
    IN IF inst.kind = "clf"
       THEN \A c \in 1..Len(inst.prior.a) : Gain(LAMBDA po : po.a[c]) = Root(LAMBDA po : po.a[c])
       ELSE /\ Gain(LAMBDA po : po.k) = Root(LAMBDA po : po.k)
            /\ Gain(LAMBDA po : po.t) = Root(LAMBDA po : po.t)
            /\ BigAdd(FoldSet(LAMBDA p, acc : BigAdd(acc, Posterior(inst, tree[p].up, tree[p].rows).q), <<>>, L), inst.prior.q)
               = BigAdd(Posterior(inst, inst.prior, RowsOf(inst)).q, MulSmall(inst.prior.q, Cardinality(L)))
            /\ Gain(LAMBDA po : po.A) = Root(LAMBDA po : po.A)
\* the strengthened prior of a node is the root prior plus delta times the data of the node,
\* once for every level at which the data passed: weights never decrease on the way down
PriorGrows ==
  \A p \in DOMAIN tree : p # <<>> =>
    LET par == tree[SubSeq(p, 1, Len(p) - 1)]
    IN IF inst.kind = "clf" THEN \A c \in 1..Len(inst.prior.a) : tree[p].prior.a[c] >= par.prior.a[c]
       ELSE tree[p].prior.k >= par.prior.k /\ tree[p].prior.A >= par.prior.A
PrunedFix == phase = "pruned" => Collapsible(tree, Pids(tree)) = {}
TypeOK == phase \in {"grow", "grown", "pruning", "pruned"}
=============================================================================
