------------------------------- MODULE Sphere -------------------------------
(***************************************************************************)
(* The map from the unit hypercube to the unit (half-)sphere in D          *)
(* dimensions, seen as a process that scatters uniform points over cells.  *)
(* The cells are cut by hyperplanes and cylinders whose measures under the *)
(* uniform distribution are known exactly, by symmetry or because the      *)
(* squared radius r2 of any two coordinates obeys                          *)
(*      P(1 - r2 > s^2) = s^(D-2)          (D > 2)                         *)
(* independently of their angle, which is uniform:                         *)
(*   - for each pair of coordinates: 16 sectors of equal angle x 4 rings   *)
(*     (D > 13: neighbouring ones only, no rings),                         *)
(*   - for pairs of neighbouring coordinates: 64 sectors, 50 rings of       *)
(*     equal measure,                                                      *)
(*   - all sign patterns (of the first and last 8 coordinates),            *)
(*   - the coordinate of largest magnitude.                                *)
(* A record holds N images (fixed point 10^-4) of independent uniform      *)
(* points.  A count may be 7 standard deviations off, and the sum of       *)
(* squared deviations of a family is bounded as well.                      *)
(***************************************************************************)
EXTENDS BigNat, TLC, FiniteSets, SequencesExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Scale == 10000
Block == 500           \* points consumed per step

VARIABLES r, k, cnt
vars == <<r, k, cnt>>

AbsI(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Report(S, what, vs) == IF vs = {} THEN TRUE ELSE PrintT(<<"VIOL", S.id, what, vs>>)
BigAbsDiff(a, b) == IF BigLE(a, b) THEN BigSub(b, a) ELSE BigSub(a, b)
Gets(b, name) == IF b THEN {} ELSE {name}

(********************************** cells **********************************)

Many(D) == D > 13      \* too many dimensions for all pairs of coordinates and their rings
\* pairs of coordinates in a fixed order
PairSeq(D) == IF Many(D) THEN [i \in 1..D |-> IF i < D THEN <<i, i + 1>> ELSE <<1, D>>] ELSE
              LET all == {<<i, j>> : i \in 1..D, j \in 1..D}
              IN SetToSortSeq({p \in all : p[1] < p[2]}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))

\* 0..15: counter-clockwise angle in units of 22.5 degrees
Sector(x, y) ==
  LET a == AbsI(x)
      b == AbsI(y)
      lo == IF a < b THEN a ELSE b
      hi == IF a < b THEN b ELSE a
      inner == IF (lo + hi) * (lo + hi) < 2 * hi * hi THEN 0 ELSE 1    \* angle to the nearer axis below 22.5 degrees?
      s == IF a >= b THEN inner ELSE 3 - inner                          \* within the quadrant: 0..3
  IN CASE x >= 0 /\ y >= 0 -> s
       [] x < 0 /\ y >= 0 -> 7 - s
       [] x < 0 /\ y < 0 -> 8 + s
       [] OTHER -> 15 - s

\* 0..3 from the rim to the centre (D > 2)
Ring(D, x, y) ==
  IF D = 2 \/ Many(D) THEN 0
  ELSE LET c == Scale * Scale - (x * x + y * y)
       IN IF c <= 6250000 THEN 0 ELSE IF c <= 25000000 THEN 1 ELSE IF c <= 56250000 THEN 2 ELSE 3

\* finer: 0..63 by angle, in units of 5.625 degrees (tangents of its multiples, in units of 10^-4)
Tan == <<985, 1989, 3033, 4142, 5345, 6682, 8207>>
FineSector(x, y) ==
  LET a == AbsI(x)
      b == AbsI(y)
      lo == IF a < b THEN a ELSE b
      hi == IF a < b THEN b ELSE a
      inner == IF lo * 10000 < Tan[4] * hi
               THEN IF lo * 10000 < Tan[2] * hi THEN (IF lo * 10000 < Tan[1] * hi THEN 0 ELSE 1) ELSE (IF lo * 10000 < Tan[3] * hi THEN 2 ELSE 3)
               ELSE IF lo * 10000 < Tan[6] * hi THEN (IF lo * 10000 < Tan[5] * hi THEN 4 ELSE 5) ELSE (IF lo * 10000 < Tan[7] * hi THEN 6 ELSE 7)
      s == IF a >= b THEN inner ELSE 15 - inner
  IN CASE x >= 0 /\ y >= 0 -> s
       [] x < 0 /\ y >= 0 -> 31 - s
       [] x < 0 /\ y < 0 -> 32 + s
       [] OTHER -> 63 - s

\* finer: Rings rings of equal measure.  The sum of squares c of the other coordinates is below s^2 with probability
\* s^(D-2); RingTab[D][j] is the largest c (in units of Scale^-2) with c^(D-2) <= (j / Rings)^2.
Rings == 50
RingOK(j, e, c) ==
  LET lhs(v) == BigMul(BigPow(BigOf(v), e), BigOf(Rings * Rings))
      rhs == BigMul(BigPow(BigOf(Scale * Scale), e), BigOf(j * j))
  IN BigLE(lhs(c), rhs) /\ ~BigLE(lhs(c + 1), rhs)
RingTab == <<
  <<>>, <<>>,
  <<40000, 160000, 360000, 640000, 1000000, 1440000, 1960000, 2560000, 3240000, 4000000, 4840000, 5760000, 6760000,
    7840000, 9000000, 10240000, 11560000, 12960000, 14440000, 16000000, 17640000, 19360000, 21160000, 23040000,
    25000000, 27040000, 29160000, 31360000, 33640000, 36000000, 38440000, 40960000, 43560000, 46240000, 49000000,
    51840000, 54760000, 57760000, 60840000, 64000000, 67240000, 70560000, 73960000, 77440000, 81000000, 84640000,
    88360000, 92160000, 96040000>>,
  <<2000000, 4000000, 6000000, 8000000, 10000000, 12000000, 14000000, 16000000, 18000000, 20000000, 22000000,
    24000000, 26000000, 28000000, 30000000, 32000000, 34000000, 36000000, 38000000, 40000000, 42000000, 44000000,
    46000000, 48000000, 50000000, 52000000, 54000000, 56000000, 58000000, 60000000, 62000000, 64000000, 66000000,
    68000000, 70000000, 72000000, 74000000, 76000000, 78000000, 80000000, 82000000, 84000000, 86000000, 88000000,
    90000000, 92000000, 94000000, 96000000, 98000000>>,
  <<7368062, 11696070, 15326188, 18566355, 21544346, 24328807, 26961994, 29472251, 31879757, 34199518, 36443083,
    38619575, 40736361, 42799499, 44814047, 46784283, 48713867, 50605959, 52463315, 54288352, 56083209, 57849789,
    59589794, 61304754, 62996052, 64664942, 66312566, 67939970, 69548109, 71137866, 72710052, 74265421, 75804669,
    77328444, 78837351, 80331954, 81812779, 83280321, 84735045, 86177387, 87607758, 89026545, 90434116, 91830816,
    93216975, 94592902, 95958894, 97315231, 98662182>>,
  <<14142135, 20000000, 24494897, 28284271, 31622776, 34641016, 37416573, 40000000, 42426406, 44721359, 46904157,
    48989794, 50990195, 52915026, 54772255, 56568542, 58309518, 60000000, 61644140, 63245553, 64807406, 66332495,
    67823299, 69282032, 70710678, 72111025, 73484692, 74833147, 76157731, 77459666, 78740078, 80000000, 81240384,
    82462112, 83666002, 84852813, 86023252, 87177978, 88317608, 89442719, 90553851, 91651513, 92736184, 93808315,
    94868329, 95916630, 96953597, 97979589, 98994949>>,
  <<20912791, 27594593, 32453422, 36411284, 39810717, 42822547, 45546101, 48044977, 50362699, 52530556, 54571899,
    56504690, 58343078, 60098441, 61780085, 63395727, 64951856, 66453980, 67906827, 69314484, 70680516, 72008053,
    73299857, 74558385, 75785828, 76984153, 78155132, 79300369, 80421320, 81519310, 82595555, 83651164, 84687161,
    85704488, 86704016, 87686553, 88652847, 89603595, 90539447, 91461010, 92368850, 93263501, 94145459, 95015196,
    95873151, 96719742, 97555361, 98380379, 99195148>>,
  <<27144176, 34199518, 39148676, 43088693, 46415888, 49324241, 51924941, 54288352, 56462161, 58480354, 60368107,
    62144650, 63825042, 65421326, 66943295, 68399037, 69795320, 71137866, 72431564, 73680629, 74888723, 76059049,
    77194426, 78297352, 79370052, 80414515, 81432528, 82425705, 83395509, 84343266, 85270189, 86177387, 87065876,
    87936593, 88790400, 89628094, 90450416, 91258052, 92051640, 92831776, 93599016, 94353879, 95096854, 95828397,
    96548938, 97258882, 97958610, 98648482, 99328838>>,
  <<32702428, 39864706, 44761059, 48595621, 51794746, 54564342, 57021230, 59238725, 61266167, 63138503, 64881482,
    66514678, 68053353, 69509658, 70893443, 72212815, 73474532, 74684295, 75846958, 76966697, 78047130, 79091413,
    80102320, 81082301, 82033535, 82957966, 83857338, 84733222, 85587038, 86420075, 87233508, 88028408, 88805757,
    89566458, 90311342, 91041175, 91756667, 92458478, 93147217, 93823455, 94487723, 95140517, 95782302, 96413512,
    97034557, 97645821, 98247666, 98840432, 99424442>>,
  <<37606030, 44721359, 49492320, 53182958, 56234132, 58856619, 61169088, 63245553, 65135556, 66874030, 68486610,
    69992710, 71407419, 72742715, 74008280, 75212061, 76360669, 77459666, 78513782, 79527072, 80503047, 81444763,
    82354902, 83235829, 84089641, 84918210, 85723212, 86506154, 87268396, 88011173, 88735606, 89442719, 90133447,
    90808651, 91469121, 92115587, 92748721, 93369148, 93977448, 94574160, 95159787, 95734797, 96299628, 96854692,
    97400374, 97937036, 98465017, 98984640, 99496205>>,
  <<41922880, 48904256, 53515311, 57048235, 59948425, 62427164, 64602700, 66548423, 68313258, 69931578, 71428529,
    72823100, 74130013, 75360926, 76525244, 77630668, 78683596, 79689399, 80652638, 81577217, 82466510, 83323453,
    84150615, 84950261, 85724398, 86474813, 87203104, 87910709, 88598923, 89268919, 89921764, 90558429, 91179803,
    91786700, 92379869, 92959998, 93527727, 94083644, 94628296, 95162192, 95685806, 96199579, 96703924, 97199228,
    97685852, 98164136, 98634401, 99096946, 99552057>>,
  <<45730505, 52530556, 56967905, 60341763, 63095734, 65438938, 67487852, 69314484, 70966682, 72477966, 73872795,
    75169601, 76382640, 77523184, 78600308, 79621434, 80592714, 81519310, 82405598, 83255320, 84071705, 84857559,
    85615336, 86347197, 87055056, 87740613, 88405391, 89050754, 89677934, 90288045, 90882096, 91461010, 92025627,
    92576718, 93114991, 93641098, 94155640, 94659175, 95152218, 95635249, 96108714, 96573029, 97028583, 97475738,
    97914836, 98346195, 98770117, 99186883, 99596761>>,
  <<49101681, 55696651, 59957799, 63177409, 65793322, 68010882, 69944013, 71662926, 73214145, 74630189, 75934736,
    77145595, 78276521, 79338370, 80339872, 81288155, 82189123, 83047722, 83868141, 84653958, 85408259, 86133721,
    86832687, 87507214, 88159125, 88790038, 89401400, 89994507, 90570529, 91130523, 91675446, 92206172, 92723497,
    93228151, 93720804, 94202071, 94672522, 95132682, 95583039, 96024045, 96456120, 96879658, 97295023, 97702559,
    98102586, 98495404, 98881297, 99260529, 99633351>> >>
RingTab17 == <<
    59356825, 65104048, 68720582, 71407747, 73564225, 75374451, 76939685, 78321800, 79561507, 80687080, 81718996,
    82672581, 83559618, 84389368, 85169252, 85905307, 86602518, 87265048, 87896411, 88499604, 89077203, 89631436,
    90164250, 90677352, 91172248, 91650276, 92112626, 92560367, 92994457, 93415763, 93825068, 94223087, 94610468,
    94987805, 95355644, 95714484, 96064788, 96406980, 96741454, 97068577, 97388687, 97702101, 98009113, 98309998,
    98605014, 98894402, 99178388, 99457185, 99730993>>
RingTab24 == <<
    70072591, 74630189, 77432421, 79484218, 81113083, 82468710, 83632537, 84653958, 85565265, 86388766, 87140539,
    87832565, 88474019, 89072089, 89632512, 90159944, 90658217, 91130523, 91579550, 92007585, 92416589, 92808254,
    93184058, 93545291, 93893091, 94228466, 94552313, 94865434, 95168550, 95462308, 95747295, 96024045, 96293041,
    96554726, 96809505, 97057751, 97299806, 97535984, 97766578, 97991859, 98212077, 98427464, 98638239, 98844604,
    99046749, 99244851, 99439075, 99629578, 99816507>>
RingOf(D) == CASE D <= 13 -> RingTab[D] [] D = 17 -> RingTab17 [] D = 24 -> RingTab24
ASSUME \A D \in (3..13) \cup {17, 24} : \A j \in 1..(Rings - 1) : RingOK(j, D - 2, RingOf(D)[j])
RECURSIVE RingFrom(_, _, _, _)
RingFrom(T, c, lo, hi) ==       \* number of thresholds up to c: lo <= it < hi
  IF hi - lo = 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF T[m] <= c THEN RingFrom(T, c, m, hi) ELSE RingFrom(T, c, lo, m)
\* tot: sum of all squares
FineRing(D, x, i, tot) == RingFrom(RingOf(D), tot - x[i] * x[i] - x[i + 1] * x[i + 1], 0, Rings)

\* measure of a ring, in units of 4^-(D-2)
RingMeasure(D, g) == IF D = 2 \/ Many(D) THEN (IF g = 0 THEN 1 ELSE 0)
                     ELSE Pow(g + 1, D - 2) - (IF g = 0 THEN 0 ELSE Pow(g, D - 2))

RECURSIVE SignIndex(_, _, _)
SignIndex(x, i, o) == IF i = 0 THEN 0 ELSE 2 * SignIndex(x, i - 1, o) + (IF x[o + i] < 0 THEN 1 ELSE 0)
RECURSIVE LargestFrom(_, _, _)
LargestFrom(x, i, b) == IF i > Len(x) THEN b ELSE LargestFrom(x, i + 1, IF AbsI(x[i]) > AbsI(x[b]) THEN i ELSE b)

\* the families of cells: one per pair, signs of the first coordinates, of the last ones, largest
Signs(D) == IF D > 8 THEN 8 ELSE D
NP(D) == IF Many(D) THEN D ELSE (D * (D - 1)) \div 2
\* then sectors and rings of neighbouring coordinates
Families(D) == NP(D) + 3 + (D - 1) + (IF D = 2 THEN 0 ELSE D - 1)
FineS(D, f) == f - NP(D) - 3 \in 1..(D - 1)
FineR(D, f) == f - NP(D) - 3 > D - 1
FineAt(D, f) == IF FineS(D, f) THEN f - NP(D) - 3 ELSE f - NP(D) - 3 - (D - 1)
Size(D, f) == IF f <= NP(D) THEN 64 ELSE IF f <= NP(D) + 2 THEN Pow(2, Signs(D)) ELSE IF f = NP(D) + 3 THEN 2 * D
              ELSE IF FineS(D, f) THEN 64 ELSE Rings

CellOf(D, P, f, x, tot) ==
  IF f <= Len(P) THEN 1 + Sector(x[P[f][1]], x[P[f][2]]) + 16 * Ring(D, x[P[f][1]], x[P[f][2]])
  ELSE IF f = Len(P) + 1 THEN 1 + SignIndex(x, Signs(D), 0)
  ELSE IF f = Len(P) + 2 THEN 1 + SignIndex(x, Signs(D), D - Signs(D))
  ELSE IF FineS(D, f) THEN 1 + FineSector(x[FineAt(D, f)], x[FineAt(D, f) + 1])
  ELSE IF FineR(D, f) THEN 1 + FineRing(D, x, FineAt(D, f), tot)
  ELSE LET b == LargestFrom(x, 1, 1) IN IF x[b] < 0 THEN D + b ELSE b

\* measure <<num, den>> of a cell on the whole sphere, and whether it lies on the half kept (x1 >= 0),
\* outside it, or across the border
Measure(D, P, f, c) ==
  IF f <= Len(P) THEN <<RingMeasure(D, (c - 1) \div 16), 16 * (IF Many(D) THEN 1 ELSE Pow(4, D - 2))>>
  ELSE IF f <= Len(P) + 2 THEN <<1, Pow(2, Signs(D))>>
  ELSE IF FineS(D, f) THEN <<1, 64>> ELSE IF FineR(D, f) THEN <<1, Rings>>
  ELSE <<1, 2 * D>>
Where(D, P, f, c) ==
  IF f <= Len(P)
  THEN IF P[f][1] # 1 THEN "across" ELSE IF (c - 1) % 16 \in 4..11 THEN "outside" ELSE "inside"
  ELSE IF f = Len(P) + 1 \/ (f = Len(P) + 2 /\ D = Signs(D)) THEN (IF c - 1 >= Pow(2, Signs(D) - 1) THEN "outside" ELSE "inside")
  ELSE IF f = Len(P) + 2 THEN "across"
  ELSE IF FineR(D, f) THEN "across"
  ELSE IF FineS(D, f) THEN (IF FineAt(D, f) # 1 THEN "across" ELSE IF (c - 1) \in 16..47 THEN "outside" ELSE "inside")
  ELSE IF c = 1 THEN "inside" ELSE IF c = D + 1 THEN "outside" ELSE "across"

Expected(S, P, f, c) ==
  LET m == Measure(S.D, P, f, c)
      w == Where(S.D, P, f, c)
  IN IF ~S.half \/ w = "across" THEN m
     ELSE IF w = "outside" THEN <<0, 1>> ELSE <<2 * m[1], m[2]>>

\* |c - N p| <= 7 sqrt(N p (1 - p)) + 4
CountOK(n, N, m) ==
  LET p == m[1]
      q == m[2]
      d == BigAbsDiff(BigMul(BigOf(n), BigOf(q)), BigMul(BigOf(N), BigOf(p)))
      e == BigMul(BigOf(4), BigOf(q))
      x == IF BigLE(d, e) THEN <<>> ELSE BigSub(d, e)
  IN IF p = 0 THEN n = 0
     ELSE BigLE(BigMul(x, x), BigMul(BigMul(BigOf(49), BigOf(N)), BigMul(BigOf(p), BigOf(q - p))))

\* The squared deviations of a family's cells (of at least 20 expected points each), over their expectations, summed:
\* for k cells at most k + 2 sqrt(30 k) + 60, which chance exceeds with probability e^-30.
Root(n) == CHOOSE i \in 0..n : i * i <= n /\ (i + 1) * (i + 1) > n
FamilyOK(S, P, f, count) ==
  LET N == Len(S.pts)
      q == Measure(S.D, P, f, 1)[2]
      E == [c \in 1..Size(S.D, f) |-> Expected(S, P, f, c)[1]]
      big == {c \in 1..Size(S.D, f) : E[c] > 0 /\ BigLE(BigMul(BigOf(20), BigOf(q)), BigMul(BigOf(N), BigOf(E[c])))}
      V == SetToSeq({E[c] : c \in big})
      dev(c) == LET d == BigAbsDiff(BigMul(BigOf(count[c]), BigOf(q)), BigMul(BigOf(N), BigOf(E[c]))) IN BigMul(d, d)
      BigSum(C) == FoldLeft(LAMBDA a, c : BigAdd(a, dev(c)), <<>>, SetToSeq(C))
      Others(i) == FoldLeft(LAMBDA a, j : IF j = i THEN a ELSE BigMul(a, BigOf(V[j])), <<1>>, [j \in 1..Len(V) |-> j])
      lhs == FoldLeft(LAMBDA a, i : BigAdd(a, BigMul(BigSum({c \in big : E[c] = V[i]}), Others(i))), <<>>, [j \in 1..Len(V) |-> j])
      n == Cardinality(big)
  IN big = {} \/ BigLE(lhs, BigMul(BigMul(BigOf(n + 61 + Root(120 * n)), BigOf(N)), BigMul(BigOf(q), Others(0))))

(******************************** behaviour ********************************)

Init == /\ r \in 1..Len(Runs) /\ k = 0
        /\ cnt = [f \in 1..Families(Runs[r].D) |-> [c \in 1..Size(Runs[r].D, f) |-> 0]]

Squares(x) == FoldLeft(LAMBDA a, v : a + v * v, 0, x)
PointOK(S, x) == Len(x) = S.D /\ (S.half => x[1] >= 0) /\ AbsI(Squares(x) - Scale * Scale) <= 20000 * S.D

Step(S) ==
  LET hi == IF k + Block > Len(S.pts) THEN Len(S.pts) ELSE k + Block
      pts == SubSeq(S.pts, k + 1, hi)
      P == TLCEval(PairSeq(S.D))
      bad == {i \in 1..Len(pts) : ~PointOK(S, pts[i])}
      both == [i \in 1..Len(pts) |-> <<pts[i], Squares(pts[i])>>]
      Add(f) == FoldLeft(LAMBDA a, x : [a EXCEPT ![CellOf(S.D, P, f, x[1], x[2])] = @ + 1], cnt[f], both)
  IN /\ k < Len(S.pts)
     /\ Report(S, <<"point", k + 1>>, Gets(bad = {}, "not on the sphere"))
     /\ cnt' = IF bad # {} THEN cnt ELSE [f \in 1..Families(S.D) |-> Add(f)]
     /\ k' = hi

End(S) ==
  LET P == TLCEval(PairSeq(S.D))
      N == Len(S.pts)
      off == {fc \in UNION {{<<f, c>> : c \in 1..Size(S.D, f)} : f \in 1..Families(S.D)} :
                ~CountOK(cnt[fc[1]][fc[2]], N, Expected(S, P, fc[1], fc[2]))}
  IN /\ k = Len(S.pts)
     /\ Report(S, <<"cells", Cardinality(off)>>,
          Gets(off = {} /\ \A f \in 1..Families(S.D) : FamilyOK(S, P, f, cnt[f]), "not uniform") \cup Gets(S.single, "point by point"))
     /\ k' = k + 1 /\ cnt' = cnt

Next == LET S == Runs[r] IN (Step(S) \/ End(S)) /\ UNCHANGED r
Spec == Init /\ [][Next]_vars

\* every family counts every point exactly once
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Consistent == \A f \in DOMAIN cnt : SumTo(cnt[f], Len(cnt[f])) <= k

\* the cells of a family have total measure 1
ASSUME \A D \in (2..13) \cup {17, 24} : \A f \in 1..Families(D) :
         LET P == PairSeq(D) IN
         (LET s == [c \in 1..Size(D, f) |-> Measure(D, P, f, c)[1]] IN SumTo(s, Len(s)) = Measure(D, P, f, 1)[2])
=============================================================================
