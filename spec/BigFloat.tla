------------------------------ MODULE BigFloat ------------------------------
(***************************************************************************)
(* Positive reals with at least 20 significant decimal digits: a value is  *)
(* m * Base^e with m a BigNat of at most Prec limbs.  Every operation      *)
(* truncates, with a relative error below 10^-20; the longest chains used  *)
(* here (a few thousand operations, squared 24 times by LogB) stay far     *)
(* below the tolerance 10^-6 that the specification applies to scores.     *)
(***************************************************************************)
EXTENDS BigNat

Prec == 6

FNorm(m, e) ==
  IF Len(m) <= Prec THEN [m |-> m, e |-> e]
  ELSE [m |-> SubSeq(m, Len(m) - Prec + 1, Len(m)), e |-> e + Len(m) - Prec]

FBig(a) == FNorm(a, 0)
FInt(i) == FBig(BigOf(i))
FOne == [m |-> <<1>>, e |-> 0]

FMulSmall(f, i) == FNorm(MulSmall(f.m, i), f.e)

\* column sums stay below Prec * 10^8 < 2^31
MulCols(a, b) ==
  LET la == Len(a)
      lb == Len(b)
      Col(k) == FoldLeft(LAMBDA acc, i : IF k + 1 - i >= 1 /\ k + 1 - i <= lb
                                         THEN acc + a[i] * b[k + 1 - i] ELSE acc,
                         0, [i \in 1..la |-> i])
      r == FoldLeft(LAMBDA acc, k :
              LET v == Col(k) + acc[2] IN <<Append(acc[1], v % Base), v \div Base>>,
              << <<>>, 0 >>, [k \in 1..(la + lb - 1) |-> k])
  IN r[1] \o Carry(r[2])

FMul(f, g) == FNorm(MulCols(f.m, g.m), f.e + g.e)

RECURSIVE FPow(_, _)
FPow(f, n) == IF n = 0 THEN FOne
              ELSE IF n = 1 THEN f
              ELSE LET h == FPow(f, n \div 2)
                       q == FMul(h, h)
                   IN IF n % 2 = 0 THEN q ELSE FMul(q, f)

\* compare f and g (top limbs nonzero)
FCmp(f, g) ==
  LET tf == f.e + Len(f.m)
      tg == g.e + Len(g.m)
  IN IF tf # tg THEN (IF tf < tg THEN -1 ELSE 1)
     ELSE LET lo == IF f.e < g.e THEN f.e ELSE g.e
          IN BigCmp(Zeros(f.e - lo) \o f.m, Zeros(g.e - lo) \o g.m)

(***************************************************************************)
(* Logarithm to base 10^4 in units of 2^-24 (an integer; the logarithm     *)
(* itself is known to lie in [result, result + 1)).                        *)
(***************************************************************************)
LogUnit == 16777216
SquareN(f, n) == FoldLeft(LAMBDA acc, i : FMul(acc, acc), f, [i \in 1..n |-> i])
LogB(f) ==
  LET top == f.e + Len(f.m) - 1                  \* f in [B^top, B^(top+1))
      g == SquareN([m |-> f.m, e |-> 1 - Len(f.m)], 24)
  IN <<top, g.e + Len(g.m) - 1>>                 \* integer part, fraction * 2^24
=============================================================================
