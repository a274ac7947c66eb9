------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Exact arithmetic on natural numbers of any size.  TLC integers are      *)
(* 32-bit; evidence scores are products of hundreds of factors.  A BigNat  *)
(* is a little-endian sequence of base-10^4 limbs with no leading (i.e.    *)
(* trailing in the sequence) zero limb; zero is <<>>.                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Base == 10000

RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(c \div Base)

\* m <= 200000 keeps every intermediate below 2^31
BigOf(m) == Carry(m)

MulSmall(a, m) ==
  IF m = 0 \/ a = <<>> THEN <<>>
  ELSE IF m = 1 THEN a
  ELSE LET r == FoldLeft(LAMBDA acc, d :
                   LET v == d * m + acc[2] IN <<Append(acc[1], v % Base), v \div Base>>,
                   << <<>>, 0 >>, a)
       IN r[1] \o Carry(r[2])

BigAdd(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      L(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
      r == FoldLeft(LAMBDA acc, i :
              LET v == L(a, i) + L(b, i) + acc[2] IN <<Append(acc[1], v % Base), v \div Base>>,
              << <<>>, 0 >>, [i \in 1..n |-> i])
  IN r[1] \o Carry(r[2])

RECURSIVE BigTrim(_)
BigTrim(a) == IF a = <<>> THEN a
              ELSE IF a[Len(a)] = 0 THEN BigTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

\* requires a >= b
BigSub(a, b) ==
  LET L(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
      r == FoldLeft(LAMBDA acc, i :
              LET v == a[i] - L(b, i) - acc[2]
              IN IF v < 0 THEN <<Append(acc[1], v + Base), 1>> ELSE <<Append(acc[1], v), 0>>,
              << <<>>, 0 >>, [i \in 1..Len(a) |-> i])
  IN BigTrim(r[1])

Zeros(k) == [i \in 1..k |-> 0]

BigMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF Len(b) = 1 THEN MulSmall(a, b[1])
  ELSE IF Len(a) = 1 THEN MulSmall(b, a[1])
  ELSE \* column-wise: a column sum is at most Len * (10^4)^2, so at most 21 limbs per
       \* fold step; process the shorter operand limb by limb
       LET s == IF Len(a) <= Len(b) THEN a ELSE b
           g == IF Len(a) <= Len(b) THEN b ELSE a
       IN FoldLeft(LAMBDA acc, i :
              IF s[i] = 0 THEN acc
              ELSE BigAdd(acc, Zeros(i - 1) \o MulSmall(g, s[i])),
              <<>>, [i \in 1..Len(s) |-> i])

RECURSIVE BigPow(_, _)
BigPow(a, n) == IF n = 0 THEN <<1>>
                ELSE IF n = 1 THEN a
                ELSE LET h == BigPow(a, n \div 2)
                         q == BigMul(h, h)
                     IN IF n % 2 = 0 THEN q ELSE BigMul(q, a)

\* -1, 0, 1
BigCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]}
       IN IF D = {} THEN 0
          ELSE LET i == CHOOSE i \in D : \A j \in D : j <= i
               IN IF a[i] < b[i] THEN -1 ELSE 1

BigLT(a, b) == BigCmp(a, b) = -1
BigLE(a, b) == BigCmp(a, b) # 1

\* product of a sequence of naturals <= 200000
BigProd(s) == FoldLeft(LAMBDA acc, m : MulSmall(acc, m), <<1>>, s)
=============================================================================
