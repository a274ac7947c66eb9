------------------------------ MODULE Evidence ------------------------------
(***************************************************************************)
(* Bayesian evidence of a set of targets.                                  *)
(*                                                                         *)
(* A score is a positive rational [n |-> F, d |-> F] (BigFloat).           *)
(*                                                                         *)
(* Classification: Dirichlet prior alpha_c = a[c]/b.  The evidence of      *)
(* class counts k is  PROD_c alpha_c^(k_c rising) / (SUM alpha)^(n rising) *)
(* in which all powers of b cancel.                                        *)
(*                                                                         *)
(* Regression: Normal-gamma prior in natural parameters                    *)
(*    kappa = k/b,  kappa*mu = t/b,  2*beta + kappa*mu^2 = q/b,            *)
(*    2*alpha = A/ab                                                       *)
(* in which the conjugate update with n targets (sum S, sum of squares Q)  *)
(* is plain addition of (n, S, Q, n).  The marginal likelihood is          *)
(*    Gamma(al_n)/Gamma(al) * be^al / be_n^al_n * sqrt(ka/ka_n)            *)
(*                                                     * (2 pi)^(-n/2)     *)
(* Regression scores are kept raised to the power 2*ab (I.pow), which      *)
(* makes them rational up to powers of pi and of                           *)
(* g2(al) = (Gamma(al+1/2)/Gamma(al))^2.                                   *)
(***************************************************************************)
EXTENDS BigFloat, TLC

SOne == [n |-> FOne, d |-> FOne]
SMul(x, y) == [n |-> FMul(x.n, y.n), d |-> FMul(x.d, y.d)]
SInv(x) == [n |-> x.d, d |-> x.n]
SPow(x, k) == [n |-> FPow(x.n, k), d |-> FPow(x.d, k)]

\* x > y by more than one part in 10^6, for scores raised to the power pw.  Decisions closer
\* than that are ties as far as the floating point of any implementation is concerned.
ClearlyGreater(x, y, pw) ==
  FCmp(FMulSmall(FMulSmall(FMul(x.n, y.d), 1000), 1000),
       FMul(FMul(y.n, x.d), FBig(BigAdd(<<0, 100>>, BigOf(pw))))) = 1

AbsI(i) == IF i < 0 THEN -i ELSE i
Sum(s) == FoldLeft(LAMBDA a, e : a + e, 0, s)
BigSq(i) == BigMul(BigOf(AbsI(i)), BigOf(AbsI(i)))

(******************************* Classification ****************************)

\* prefix products a (a+b) (a+2b) ... of up to k factors; of long products, only some are kept
RisingTable(a, b, k) ==
  LET st == IF k <= 4000 THEN 1 ELSE IF k <= 8000 THEN 16 ELSE 64
      Prod(f, j) == FoldLeft(LAMBDA acc, i : FMulSmall(acc, a + (j + i - 1) * b), f, [i \in 1..st |-> i])
  IN [a |-> a, b |-> b, st |-> st,
      v |-> FoldLeft(LAMBDA acc, j : Append(acc, Prod(acc[j], (j - 1) * st)), <<FOne>>, [j \in 1..(k \div st) |-> j])]
\* the product of the first j factors
Rising(T, j) ==
  LET i == j \div T.st
  IN FoldLeft(LAMBDA acc, e : FMulSmall(acc, T.a + (i * T.st + e - 1) * T.b), T.v[i + 1], [e \in 1..(j - i * T.st) |-> e])

\* tables for all row sets with class counts at most k
ClfTables(pr, b, k) ==
  [c |-> TLCEval([c \in 1..Len(k) |-> RisingTable(pr.a[c], b, k[c])]),
   s |-> RisingTable(Sum(pr.a), b, Sum(k))]

ClfEvidence(T, k) ==
  [n |-> FoldLeft(LAMBDA acc, c : FMul(acc, Rising(T.c[c], k[c])), FOne, [c \in 1..Len(k) |-> c]),
   d |-> Rising(T.s, Sum(k))]

(********************************* Regression ******************************)

\* (2*beta) as the fraction (q k - t^2) / (b k), without the b
BetaN(pr) == BigSub(BigMul(pr.q, BigOf(pr.k)), BigSq(pr.t))
BetaS(pr) == [n |-> FBig(BetaN(pr)), d |-> FInt(pr.k)]

\* g2(A/(2 ab)) by shifting the argument up by G2Shift, where the asymptotic series
\*   (Gamma(x+1/2)/Gamma(x))^2 = x - 1/4 + 1/(32 x) + 1/(128 x^2) - 5/(2048 x^3) - ...
\* is accurate to 10^-10 (relative); x = X/(2 ab)
G2Shift == 60
G2(A, ab) ==
  LET num == FoldLeft(LAMBDA acc, j : FMulSmall(acc, A + 2 * ab * (j - 1)), FOne, [j \in 1..G2Shift |-> j])
      den == FoldLeft(LAMBDA acc, j : FMulSmall(acc, A + 2 * ab * (j - 1) + ab), FOne, [j \in 1..G2Shift |-> j])
      X == A + 2 * ab * G2Shift
      D == 2 * ab
      \* x - 1/4 + 1/(32x) + 1/(128x^2) over the denominator 128 D X^2
      X2 == BigMul(BigOf(X), BigOf(X))
      sn == BigAdd(BigSub(MulSmall(BigMul(X2, BigOf(X)), 128), MulSmall(MulSmall(X2, D), 32)),
                   BigAdd(MulSmall(MulSmall(BigMul(BigOf(X), BigOf(D)), D), 4),
                          BigMul(BigMul(BigOf(D), BigOf(D)), BigOf(D))))
      sd == MulSmall(MulSmall(X2, D), 128)
  IN SMul([n |-> FBig(sn), d |-> FBig(sd)], SPow([n |-> num, d |-> den], 2))

\* (Gamma(al + n/2) / Gamma(al))^2 for all n up to nmax.  With al = A/(2 ab) and n = 2 m (+ 1):
\*   Gamma(al + m) / Gamma(al)             = A (A + 2 ab) (A + 4 ab) ... / (2 ab)^m
\*   Gamma(al + 1/2 + m) / Gamma(al + 1/2) = (A + ab) (A + 3 ab) ... / (2 ab)^m
GammaTable(A, ab, nmax) ==
  [ab |-> ab, g2 |-> G2(A, ab),
   even |-> RisingTable(A, 2 * ab, nmax \div 2), odd |-> RisingTable(A + ab, 2 * ab, nmax \div 2)]
GammaRatio2(T, n) ==
  LET m == n \div 2
      s == SPow([n |-> Rising(IF n % 2 = 0 THEN T.even ELSE T.odd, m), d |-> FPow(FInt(2 * T.ab), m)], 2)
  IN IF n % 2 = 0 THEN s ELSE SMul(T.g2, s)

\* evidence^(2 ab), without the factor (b/pi)^(ab n)
RegEvidence(pr, po, ab, n, GT) ==
  LET b0 == BetaS(pr)
      bn == BetaS(po)
  IN SMul(SMul(SPow(GammaRatio2(GT, n), ab), SPow(b0, pr.A)),
          SMul(SInv(SPow(bn, po.A)), SPow([n |-> FInt(pr.k), d |-> FInt(po.k)], ab)))

Pi == [n |-> FBig(BigAdd(BigMul(BigOf(31415926), BigMul(BigOf(10000), BigOf(10000))), BigOf(53589793))),
       d |-> FBig(BigMul(BigOf(1000), BigMul(BigOf(10000), BigMul(BigOf(10000), BigOf(10000)))))]
=============================================================================
