------------------------------ MODULE TreeTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded trees with BayesTree.                           *)
(*                                                                         *)
(* Every scenario (one line of the trace file) is one behaviour: the       *)
(* recorded nodes are consumed in depth-first order, each by the growing   *)
(* action of BayesTree that explains it (Split, Close, or nothing for a    *)
(* trivial leaf), then the pruned twin, the tree measures, the queries,    *)
(* the printed lines, the feature importance and the variants of the fit.  *)
(* Verdicts are total: a step never blocks, it adds the names of the       *)
(* clauses that the record violates, restricted to the clauses in Checks.  *)
(***************************************************************************)
EXTENDS BayesTree, Json, IOUtils

CONSTANTS Checks

Scen == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc,    \* scenario
          k,     \* records consumed
          full,  \* the tree before pruning
          dead,  \* the rest of the behaviour cannot be judged (ambiguous geometry)
          srch,  \* nodes searched so far (neither trivial nor given up)
          tied   \* some decision was closer than one part in 1000

Has(c) == c \in Checks

(******************************* instances *********************************)

Dot(a, b) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])

\* without a given prior: max(1, n div 100) pseudo-observations
DefaultPrior(J) ==
  LET n == FoldLeft(LAMBDA acc, e : acc + e, 0, J.w)
      m == IF n \div 100 > 1 THEN n \div 100 ELSE 1
  IN IF J.kind = "clf" THEN [a |-> [c \in 1..J.nclass |-> m * J.b]]
     ELSE [k |-> m * J.b, t |-> 0, q |-> BigOf(m * J.b * J.ys2), A |-> m * J.ab]

Inst(S) ==
  LET J == S.inst
      X == IF J.dirs = <<>> THEN J.Xr
           ELSE [r \in 1..Len(J.Xr) |-> [f \in 1..Len(J.dirs) |-> Dot(J.dirs[f], J.Xr[r])]]
  IN [kind |-> J.kind, X |-> X, w |-> J.w, y |-> J.y, b |-> J.b, ab |-> J.ab,
      prior |-> IF J.default THEN DefaultPrior(J) ELSE IF J.kind = "clf" THEN J.prior ELSE [J.prior EXCEPT !.q = BigOf(J.prior.q)],
      dn |-> J.dn, dd |-> J.dd, pn |-> J.pn, pd |-> J.pd, prec2 |-> J.prec2, nd |-> J.nd, level0 |-> J.level0,
      vals |-> J.vals, precn |-> J.precn]

Coord(S, x) == IF S.inst.dirs = <<>> THEN x
               ELSE [f \in 1..Len(S.inst.dirs) |-> Dot(S.inst.dirs[f], x)]

(************************** recorded real numbers **************************)
(* [s |-> sign, m |-> BigNat of the absolute value * 10^9]                 *)

E9 == <<0, 0, 10>>
BigAbsDiff(a, b) == IF BigLE(b, a) THEN BigSub(a, b) ELSE BigSub(b, a)
\* |v - sgn*num/den| <= 10^-8 (1 + |num/den|)
NearB(v, sgn, num, den) ==
  LET a == BigMul(v.m, den)
      b == BigMul(num, E9)
      d == IF v.s = sgn \/ v.m = <<>> \/ num = <<>> THEN BigAbsDiff(a, b) ELSE BigAdd(a, b)
  IN BigLE(MulSmall(MulSmall(d, 10000), 10000), BigMul(E9, BigAdd(den, num)))
Near(v, num, den) == NearB(v, IF num < 0 THEN -1 ELSE 1, BigOf(AbsI(num)), BigOf(den))
NearFx(u, v) ==
  LET d == IF u.s = v.s THEN BigAbsDiff(u.m, v.m) ELSE BigAdd(u.m, v.m)
  IN BigLE(MulSmall(MulSmall(d, 10000), 10000), BigAdd(E9, u.m))
NearSeq(us, vs) == Len(us) = Len(vs) /\ \A i \in 1..Len(us) : NearFx(us[i], vs[i])

\* a recorded parameter vector against a prior/posterior in natural units.
\* Regression parameters are (mu, kappa, alpha, beta)
NearParams(I, vs, po) ==
  IF I.kind = "clf"
  THEN Len(vs) = Len(po.a) /\ \A c \in 1..Len(po.a) : Near(vs[c], po.a[c], I.b)
  ELSE /\ Len(vs) = 4
       /\ Near(vs[1], po.t, po.k)
       /\ Near(vs[2], po.k, I.b)
       /\ Near(vs[3], po.A, 2 * I.ab)
       /\ NearB(vs[4], 1, BetaN(po), MulSmall(BigOf(2 * I.b), po.k))

(********************************** nodes **********************************)

Gets(b, name) == IF b THEN {} ELSE {name}      \* clause `name` is violated unless b
OnlyIf(c, s) == IF Has(c) THEN s ELSE {}

\* the neighbouring coordinates of R around the threshold, if it has rows on both sides
Around(I, R, f, t2) ==
  <<Max({I.X[r][f] : r \in Side(I, R, f, t2, 1)}), Min({I.X[r][f] : r \in Side(I, R, f, t2, 2)})>>

MidOK(S, rec, lo, hi) ==
  IF S.mode = "rank"
  THEN 2 * lo < rec.t2 /\ rec.t2 <= 2 * hi
       /\ LET V == S.inst.vals[rec.f]
              P == S.inst.ulps[rec.f]
              tol == MulSmall(BigAdd(P[lo + 1], P[hi + 1]), 2)
          IN BigLE(BigAbsDiff(MulSmall(rec.thrv, 2), BigAdd(V[lo + 1], V[hi + 1])), tol)
  ELSE AbsI(rec.t2 - (lo + hi)) <= S.inst.tol[rec.f] /\ rec.exact

NodeT2(S, rec) == IF S.inst.dirs = <<>> \/ rec.leaf THEN rec.t2 ELSE Dot(S.inst.dirs[rec.f], rec.o2)

Ambiguous(S, I, R, f, t2) == S.amb > 0 /\ \E r \in R : AbsI(2 * I.X[r][f] - t2) <= S.amb

\* relative distance of decisions below 1/1000 (scores to the power pw)
WithinBand(x, y, pw) ==
  LET A == FMul(x.n, y.d)
      B == FMul(y.n, x.d)
  IN ~(FCmp(FMulSmall(A, 1000), FMulSmall(B, 1000 + 2 * pw)) = 1 \/ FCmp(FMulSmall(B, 1000), FMulSmall(A, 1000 + 2 * pw)) = 1)

\* natural logarithm * 10^5 of a score (an integer, error below 3)
RECURSIVE ToInt(_)
ToInt(b) == IF b = <<>> THEN 0 ELSE b[1] + Base * ToInt(Tail(b))
Drop3(b) == IF Len(b) <= 3 THEN <<>> ELSE SubSeq(b, 4, Len(b))
FracNat(df) == LET v == ToInt(Drop3(BigMul(BigOf(AbsI(df)), <<6600, 9790, 548>>))) IN IF df < 0 THEN -v ELSE v
Ln5(x) == LET a == LogB(x.n)
              b == LogB(x.d)
          IN (a[1] - b[1]) * 921034 + FracNat(a[2] - b[2])

\* values reported to a search: -ln of the best score along the direction (times the power)
PiFactor(I, n) == IF I.kind = "clf" THEN SOne
                  ELSE SPow([n |-> FMul(FInt(I.b), Pi.d), d |-> Pi.n], I.ab * n)
BestAlong(C, f, ns, pw) ==
  LET Cf == {c \in C : c.f = f}
  IN IF Cf = {} THEN ns
     ELSE (CHOOSE c \in Cf : \A o \in Cf : FCmp(FMul(o.s.n, c.s.d), FMul(c.s.n, o.s.d)) # 1).s
\* the report of the search at the rows R (equal rows are counted together): searches may come in any order
IsReportOf(S, I, rep, R) ==
  \A c \in 1..Len(rep.cnt) : rep.cnt[c] = FoldSet(LAMBDA r, acc : acc + (IF S.canon[r] = c THEN I.w[r] ELSE 0), 0, R)
ReportOK(I, rep, C, ns, R) ==
  /\ Len(rep.vals) = Len(I.prec2)
  /\ \A f \in Dirs(I) :
       LET e == Ln5(SMul(BestAlong(C, f, ns, Power(I)), PiFactor(I, Weight(I, R))))
           pw == Power(I)
       IN AbsI(rep.vals[f] * pw + e) <= 10 * pw + 10 + AbsI(e) \div 50000

NodeViol(S, I, t, rec) ==
  LET p == rec.p
      nd == t[p]
      R == nd.rows
      t2 == NodeT2(S, rec)
      trivial == nd.st = "leaf"
      lev == Level(I, p)
      decided == ~trivial /\ R # {}
      scored == S.scored /\ decided /\ ((Checks \cap {"missed", "notbest", "report"}) # {})
      T == TLCEval(Tables(I, nd.prior, R))
      ns == TLCEval(NoSplitScore(I, T, nd.prior, R, lev))
      C == TLCEval(Candidates(I, T, nd.prior, R, lev))
      both == Side(I, R, rec.f, t2, 1) # {} /\ Side(I, R, rec.f, t2, 2) # {}
      g == Around(I, R, rec.f, t2)
      admissible == both /\ Apart(I, rec.f, g[1], g[2])
  IN UNION {
       OnlyIf("n", Gets(rec.n = Weight(I, R), "n")),
       OnlyIf("level", Gets(rec.lev = lev, "level")),
       OnlyIf("empty", Gets(R # {}, "empty")),
       OnlyIf("trivial", Gets(trivial => rec.leaf, "trivial")),
       IF R = {} THEN {} ELSE UNION {
         OnlyIf("post", Gets(NearParams(I, rec.post, Posterior(I, nd.up, R)), "post")),
         OnlyIf("prior", Gets(rec.prior = <<>> \/ trivial \/ NearParams(I, rec.prior, nd.prior), "prior"))},
       IF rec.leaf
       THEN IF scored /\ Has("missed") THEN Gets(NoGain(I, C, ns), "missed") ELSE {}
       ELSE UNION {
         OnlyIf("oneside", Gets(both, "oneside")),
         OnlyIf("inadmissible", Gets(R = {} \/ admissible, "inadmissible")),
         OnlyIf("midpoint", Gets(~both \/ MidOK(S, [rec EXCEPT !.t2 = t2], g[1], g[2]), "midpoint")),
         OnlyIf("unit", Gets(rec.norm2 = <<>> \/ Near(rec.norm2[1], 1, 1), "unit")),
         OnlyIf("origin", Gets(rec.o2 = <<>> \/ (rec.exact /\
               \E r \in Side(I, R, rec.f, t2, 1), s \in Side(I, R, rec.f, t2, 2) :
                 \A j \in 1..Len(rec.o2) : S.inst.Xr[r][j] + S.inst.Xr[s][j] = rec.o2[j]), "origin")),
         IF scored /\ admissible /\ Has("notbest")
         THEN Gets(\E c \in C : c.f = rec.f /\ c.lo = g[1] /\ Best(I, c, C, ns), "notbest") ELSE {}},
       IF scored /\ S.hasreports /\ Has("report")
       THEN Gets(\E i \in 1..Len(S.reports) : IsReportOf(S, I, S.reports[i], R) /\ ReportOK(I, S.reports[i], C, ns, R), "report") ELSE {}}

\* is some other decision at this node within the band of the recorded one?
NodeTied(S, I, t, rec) ==
  LET nd == t[rec.p]
      R == nd.rows
      lev == Level(I, rec.p)
      T == TLCEval(Tables(I, nd.prior, R))
      ns == TLCEval(NoSplitScore(I, T, nd.prior, R, lev))
      C == TLCEval(Candidates(I, T, nd.prior, R, lev))
      b == CHOOSE c \in C : \A o \in C : FCmp(FMul(o.s.n, c.s.d), FMul(c.s.n, o.s.d)) # 1
  IN /\ nd.st = "open" /\ R # {} /\ C # {}
     /\ \/ WithinBand(b.s, ns, Power(I))
        \/ \E o \in C : o # b /\ WithinBand(o.s, b.s, Power(I))

Follow(S, I, t, rec) ==
  IF rec.leaf THEN CloseTree(t, rec.p)
  ELSE LET t2 == NodeT2(S, rec)
           u == SplitTree(I, t, rec.p, rec.f, t2)
       \* children of a (wrong) split of a trivial node are open, so that the rest can be judged
       IN u

(***************************** pruned twin *********************************)

PidOf(S) == [p \in {S.nodes[i].p : i \in 1..Len(S.nodes)} |->
               LET i == CHOOSE i \in 1..Len(S.nodes) : S.nodes[i].p = p IN S.nodes[i].pid]
RecAt(ns, p) == ns[CHOOSE i \in 1..Len(ns) : ns[i].p = p]
Paths(ns) == {ns[i].p : i \in 1..Len(ns)}

TwinViol(S, pt) ==
  IF ~Has("pruned") THEN {} ELSE
  IF Paths(S.twin) # DOMAIN pt \/ Len(S.twin) # Cardinality(DOMAIN pt) THEN {"pruned"}
  ELSE Gets(\A i \in 1..Len(S.twin) :
              LET a == S.twin[i]
                  b == RecAt(S.nodes, a.p)
              IN /\ a.leaf = (pt[a.p].st = "leaf")
                 /\ a.n = b.n /\ a.lev = b.lev /\ NearSeq(a.post, b.post)
                 /\ (~a.leaf => a.f = b.f /\ a.t2 = b.t2 /\ a.o2 = b.o2 /\ a.thr = b.thr), "pruned")

MeasureViol(S, t) ==
  UNION {OnlyIf("depth", Gets(S.depth = S.inst.level0 + Depth(t), "depth")),
         OnlyIf("nleaves", Gets(S.nleaves = Cardinality(Leaves(t)), "nleaves")),
         OnlyIf("qcount", Gets(\A i \in 1..Len(S.batches) : \A j \in 1..Len(S.batches[i].got) :
                                   S.batches[i].got[j] = S.batches[i].rows, "qcount")),
         OnlyIf("report", Gets(~S.hasreports \/ Len(S.reports) >= srch, "report")),
         OnlyIf("partition", Gets(
           /\ \A r \in 1..Len(S.inst.w) : Cardinality({p \in Leaves(t) : r \in t[p].rows}) = 1
           /\ \A p \in DOMAIN t : t[p].rows # {}, "partition"))}

(******************************** queries **********************************)

\* decision nodes on the way to the leaf p
Ancestors(p) == [i \in 1..Len(p) |-> SubSeq(p, 1, i - 1)]

\* rows on (or, for searches over a continuum, near) a hyperplane may be rounded to either side,
\* unless the hyperplane is parallel to the axes
OnPlane(S, t, x) ==
  LET p == Route(t, x)
      slack(f) == IF S.inst.dirs = <<>> \/ Cardinality({j \in 1..Len(S.inst.dirs[f]) : S.inst.dirs[f][j] # 0}) = 1 THEN -1 ELSE 0
  IN \E i \in 1..Len(p) : LET d == t[SubSeq(p, 1, i - 1)]
                          IN AbsI(2 * x[d.f] - d.t2) <= (IF S.amb > 0 THEN S.amb ELSE slack(d.f))

QueryViol(S, I, t, q) ==
  LET x == Coord(S, q.x)
      p == Route(t, x)
      nd == t[p]
      po == Posterior(I, nd.up, nd.rows)
      pred == Predicted(I, nd)
      s == IF I.kind = "clf" THEN Sum(po.a) ELSE 0
      amb == OnPlane(S, t, x)
      nodes == S.nodes
  IN IF amb THEN {} ELSE UNION {
       OnlyIf("qpred", Gets(\/ q.pred = <<>>
                            \/ IF I.kind = "clf" THEN Near(q.pred[1], pred - 1, 1) ELSE Near(q.pred[1], pred[1], pred[2]), "qpred")),
       OnlyIf("qproba", Gets(\/ q.proba = <<>>
                             \/ Len(q.proba) = Len(po.a) /\ \A c \in 1..Len(po.a) : Near(q.proba[c], po.a[c], s), "qproba")),
       OnlyIf("qraw", Gets(\/ q.raw = <<>>
                           \/ /\ NearParams(I, q.raw[2], po)
                              /\ (I.dn = 0 => NearParams(I, q.raw[1], nd.prior)), "qraw")),
       \* consistency with the recorded leaf itself, whatever its posterior is
       OnlyIf("qleaf", Gets(q.raw = <<>> \/ NearSeq(q.raw[2], RecAt(nodes, p).post), "qleaf")),
       OnlyIf("qpath", Gets(\/ ~q.haspath
                            \/ /\ Len(q.path) = Len(p)
                               /\ \A i \in 1..Len(p) :
                                    LET b == RecAt(nodes, SubSeq(p, 1, i - 1))
                                    IN q.path[i].f = b.f /\ q.path[i].name = b.name /\ q.path[i].thr = b.thr
                                       /\ q.path[i].ge = (p[i] = 2), "qpath"))}

NamesViol(S) ==
  OnlyIf("name", Gets(\A i \in 1..Len(S.nodes) :
     S.nodes[i].leaf \/ S.names = <<>> \/ S.nodes[i].name = S.names[S.nodes[i].f], "name"))

(****************************** printed lines ******************************)

RECURSIVE PathLT(_, _)
PathLT(a, b) == IF a = b \/ b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ PathLT(Tail(a), Tail(b)))
Preorder(t) == SetToSortSeq(DOMAIN t, PathLT)

\* printed with at least 6 significant digits after the point: 10^-6 (1 + |v|)
NearPrint(u, num, den) == LET d == BigAbsDiff(BigMul(u.m, BigOf(den)), BigMul(BigOf(AbsI(num)), E9))
                          IN BigLE(MulSmall(MulSmall(d, 1000), 1000), BigMul(E9, BigAdd(BigOf(den), BigOf(AbsI(num)))))
NearPrintFx(u, v) == LET d == IF u.s = v.s THEN BigAbsDiff(u.m, v.m) ELSE BigAdd(u.m, v.m)
                     IN BigLE(MulSmall(MulSmall(d, 1000), 1000), BigAdd(E9, u.m))

LineOK(S, I, t, p, ln) ==
  LET nd == t[p]
      b == RecAt(S.nodes, p)
      par == IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1)
      po == Posterior(I, nd.up, nd.rows)
      pred == Predicted(I, nd)
  IN /\ ln.d = Len(p)
     /\ ln.side = (IF p = <<>> THEN "" ELSE IF p[Len(p)] = 1 THEN "L" ELSE "R")
     /\ (S.inst.dirs = <<>> => ln.pthr = (IF p = <<>> THEN "" ELSE RecAt(S.nodes, par).thr))
     /\ ln.leaf = (nd.st # "split")
     /\ IF ln.leaf
        THEN /\ ln.n = Weight(I, nd.rows)
             /\ IF I.kind = "clf"
                THEN /\ Near(ln.pred, pred - 1, 1)
                     /\ Len(ln.proba) = Len(po.a)
                     /\ \A c \in 1..Len(po.a) : NearPrint(ln.proba[c], po.a[c], Sum(po.a))
                ELSE Near(ln.pred, pred[1], pred[2]) /\ ln.proba = <<>>
        ELSE IF S.inst.dirs = <<>> THEN ln.name = b.name /\ ln.thr = b.thr
             ELSE /\ Len(ln.origin) = Len(b.origin) /\ Len(ln.normal) = Len(b.normal)
                  /\ \A j \in 1..Len(b.origin) : NearPrintFx(ln.origin[j], b.origin[j]) /\ NearPrintFx(ln.normal[j], b.normal[j])

PrintViol(S, I, t) ==
  IF ~Has("print") \/ ~S.hasprint THEN {} ELSE
  LET P == Preorder(t)
  IN IF Len(S.lines) # Len(P) THEN {"print"}
     ELSE Gets(\A i \in 1..Len(P) : LineOK(S, I, t, P[i], S.lines[i]), "print")

(**************************** feature importance ***************************)

\* log gain * 10^5 * Power of the split at p (at least 0)
GainOf(I, t, p) ==
  LET nd == t[p]
      T == TLCEval(Tables(I, nd.prior, nd.rows))
      g == Around(I, nd.rows, nd.f, nd.t2)
      np == Cardinality(Gaps(I, nd.rows, nd.f))
      sp == SplitScore(I, T, nd.prior, nd.rows, Level(I, p), nd.f, g[1], np)
      ns == NoSplitScore(I, T, nd.prior, nd.rows, Level(I, p))
      v == Ln5(SMul(sp, SInv(ns)))
  IN IF v < 0 THEN 0 ELSE v

\* share of feature j in the split at p, in units of 10^-4
Share(S, t, p, j) == IF S.inst.dirs = <<>> THEN (IF t[p].f = j THEN 10000 ELSE 0)
                     ELSE AbsI(RecAt(S.nodes, p).n4[j])

ImpViol(S, I, t) ==
  LET SP == {p \in DOMAIN t : t[p].st = "split"}
      usable == \A p \in SP : Side(I, t[p].rows, t[p].f, t[p].t2, 1) # {} /\ Side(I, t[p].rows, t[p].f, t[p].t2, 2) # {}
      G == TLCEval([p \in SP |-> GainOf(I, t, p)])
      F == 1..Len(S.imp)
      Tot(j) == FoldSet(LAMBDA p, acc : BigAdd(acc, BigMul(BigOf(G[p]), BigOf(Share(S, t, p, j)))), <<>>, SP)
      V == TLCEval([j \in F |-> Tot(j)])
      All == FoldLeft(LAMBDA acc, j : BigAdd(acc, V[j]), <<>>, [j \in F |-> j])
      \* |imp_j * All - V_j| <= 10^-4 * All + rounding of the logarithms and of the normals
      tol == BigAdd(MulSmall(All, 1), MulSmall(BigOf(10000 * 10 * (Cardinality(SP) + 1)), 10000))
  IN IF ~Has("importance") \/ ~S.hasimp \/ SP = {} \/ ~usable \/ ~S.scored THEN {} ELSE
     Gets(/\ Len(S.imp) = S.inst.nd
          /\ \A j \in F :
               /\ S.imp[j].s = 1 \/ S.imp[j].m = <<>>
               /\ LET d == BigAbsDiff(BigMul(S.imp[j].m, All), BigMul(V[j], E9))
                  IN BigLE(MulSmall(d, 10000), BigMul(tol, E9))
               /\ ((\A p \in SP : Share(S, t, p, j) = 0) /\ S.inst.dirs = <<>> => BigLE(S.imp[j].m, <<1>>)), "importance")

(********************************* variants ********************************)

\* a variant of the fit must be the same tree
\* (of a hyperplane, the point given on it may be another one of the same plane)
SamePlane(S, a, b) == a.f = b.f /\ a.t2 = b.t2 /\ (IF S.exactplane \/ b.o2 = <<>> THEN a.o2 = b.o2
                                                  ELSE Len(a.o2) = Len(b.o2) /\ Dot(S.inst.dirs[a.f], a.o2) = Dot(S.inst.dirs[a.f], b.o2))
VariantViol(S, t, v) ==
  IF ~Has("variant") \/ (v.loose /\ tied) THEN {} ELSE
  LET ns == IF S.hastwin THEN S.twin ELSE S.nodes
  IN Gets(/\ Len(v.nodes) = Len(ns)
          /\ \A i \in 1..Len(ns) :
               LET a == v.nodes[i]
                   b == ns[i]
               IN /\ a.p = b.p /\ a.leaf = b.leaf /\ a.n = b.n
                  /\ SamePlane(S, a, b) /\ (v.anynames \/ a.name = b.name)
                  /\ NearSeq(a.post, b.post)
          /\ v.untouched
          /\ Len(v.ans) = Len(S.ans)
          /\ \A i \in 1..Len(S.ans) : NearSeq(v.ans[i], S.ans[i]) \/ dead \/ OnPlane(S, t, Coord(S, S.qx[i])), "variant: " \o v.what)

(******************************** behaviour ********************************)

Steps(S) == Len(S.nodes) + 4 + Len(S.queries) + Len(S.variants)

\* always TRUE; (IF, because TLC explores every disjunct of an action)
Report(S, what, vs) == IF dead \/ vs = {} THEN TRUE ELSE PrintT(<<"VIOL", S.id, what, vs>>)

TInit == /\ sc \in 1..Len(Scen)
         /\ inst = Inst(Scen[sc])
         /\ tree = RootTree(inst)
         /\ phase = "grow" /\ k = 0 /\ full = <<>> /\ srch = 0 /\ dead = FALSE /\ tied = FALSE

NodeStep(S) ==
  /\ phase = "grow" /\ k < Len(S.nodes)
  /\ LET rec == S.nodes[k + 1]
         lost == ~rec.leaf /\ rec.f = 0
         amb == ~rec.leaf /\ rec.f > 0 /\ Ambiguous(S, inst, tree[rec.p].rows, rec.f, NodeT2(S, rec))
     IN IF dead \/ amb \/ lost
        THEN /\ dead' = TRUE /\ UNCHANGED <<tree, tied, srch>>
             /\ Report(S, <<"node", rec.p>>, IF lost THEN OnlyIf("direction", {"direction"}) ELSE {})
        ELSE /\ Report(S, <<"node", rec.p>>, NodeViol(S, inst, tree, rec))
             /\ tree' = Follow(S, inst, tree, rec)
             /\ srch' = srch + (IF tree[rec.p].st = "open" THEN 1 ELSE 0)
             /\ tied' = (tied \/ (S.bands /\ Has("variant") /\ NodeTied(S, inst, tree, rec)))
             /\ UNCHANGED dead
  /\ k' = k + 1 /\ UNCHANGED <<phase, full>>

PruneStep(S) ==
  /\ phase = "grow" /\ k = Len(S.nodes)
  /\ full' = tree
  /\ IF S.hastwin /\ ~dead
     THEN LET pt == PruneFix(tree, PidOf(S))
          IN tree' = pt /\ Report(S, <<"pruning">>, TwinViol(S, pt))
     ELSE UNCHANGED tree
  /\ phase' = "grown" /\ k' = k + 1 /\ UNCHANGED <<dead, tied, srch>>

MeasureStep(S) ==
  /\ phase = "grown"
  /\ Report(S, <<"measures">>, MeasureViol(S, tree) \cup NamesViol(S))
  /\ phase' = "lines" /\ k' = k + 1 /\ UNCHANGED <<tree, full, dead, tied, srch>>

LineStep(S) ==
  /\ phase = "lines"
  /\ Report(S, <<"printed">>, PrintViol(S, inst, tree))
  /\ phase' = "imp" /\ k' = k + 1 /\ UNCHANGED <<tree, full, dead, tied, srch>>

ImpStep(S) ==
  /\ phase = "imp"
  /\ Report(S, <<"importance">>, ImpViol(S, inst, tree))
  /\ phase' = "query" /\ k' = k + 1 /\ UNCHANGED <<tree, full, dead, tied, srch>>

QueryStep(S) ==
  /\ phase = "query" /\ k < Len(S.nodes) + 4 + Len(S.queries)
  /\ LET i == k - Len(S.nodes) - 3
     IN Report(S, <<"query", i>>, QueryViol(S, inst, tree, S.queries[i]))
  /\ k' = k + 1 /\ UNCHANGED <<tree, full, phase, dead, tied, srch>>

VariantStep(S) ==
  /\ phase = "query" /\ k >= Len(S.nodes) + 4 + Len(S.queries) /\ k < Steps(S)
  /\ LET i == k - Len(S.nodes) - 3 - Len(S.queries)
     IN Report(S, <<"variant", i>>, VariantViol(S, tree, S.variants[i]))
  /\ k' = k + 1 /\ UNCHANGED <<tree, full, phase, dead, tied, srch>>

TNext == LET S == Scen[sc]
         IN /\ \/ NodeStep(S) \/ PruneStep(S) \/ MeasureStep(S) \/ LineStep(S) \/ ImpStep(S)
               \/ QueryStep(S) \/ VariantStep(S)
            /\ UNCHANGED <<sc, inst>>

\* every behaviour ends with all records consumed; counted to show that nothing was skipped
AllConsumed == k = Steps(Scen[sc])
View == <<sc, k>>
=============================================================================
