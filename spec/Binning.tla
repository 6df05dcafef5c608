------------------------------- MODULE Binning -------------------------------
(* The experimental semivariogram: all pairs of data sorted into equal-width *)
(* classes between the smallest and the largest pair distance.               *)
(*                                                                           *)
(* Distances are square roots of integers (Euclidean, anisotropy-adjusted)   *)
(* or integers (great-circle arcs, degrees); class membership is decided     *)
(* exactly.  Behaviour: one data set after another, pair by pair, is sorted  *)
(* into the classes; obligations are invariants; the finished semivariogram  *)
(* is printed for the conformance check.                                     *)
EXTENDS Geometry, BigNat, Choice, FiniteSets, Json
CONSTANTS Lo, Hi

VARIABLES no,      \* number of the data set
          ds,      \* the data set, its smallest and largest distance
          i, j,    \* the pair sorted next (i < j)
          cls      \* per class: sequence of pairs << t, dz^2, edge >>
vars == << no, ds, i, j, cls >>

(* ------------------------------ data sets -------------------------------- *)
Class(k) == Pick(k, 1, << "ok", "ok", "uk", "ok3d", "uk3d" >>)
Three(k) == Class(k) \in {"ok3d", "uk3d"}
Geo(k) == Class(k) = "ok" /\ Chance(k, 2, 35)
Big(k) == k % 70 = 35                \* thousands of pairs
N(k) == IF Big(k) THEN (IF k % 700 = 385 THEN 150 ELSE 80 + R(k, 3, 15))
        ELSE Pick(k, 3, << 2, 3, 4, 5, 6, 7, 8, 9 >>)
L(k) == IF Big(k) THEN Pick(k, 4, << 1, 1, 7, 13 >>)
        ELSE Pick(k, 4, << 1, 2, 3, 4, 5, 6, 6, 7, 8, 12 >>)
Line(k) == ~Big(k) /\ Chance(k, 5, 25)          \* on a line: many distances coincide
Sca(k, s) == Pick(k, s, << <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<3, 1>> >>)
Ang(k, s) == R(k, s, IF Three(k) THEN 4 ELSE 11) + 1
Fr(k) == IF Geo(k) \/ Chance(k, 6, 40)
           THEN (IF Three(k) THEN [ang |-> << 1, 1, 1 >>, sca |-> << <<1, 1>>, <<1, 1>> >>]
                 ELSE [ang |-> << 1 >>, sca |-> << <<1, 1>> >>])
         ELSE IF Three(k)
           THEN [ang |-> << IF Chance(k, 7, 30) THEN R(k, 8, 8) + 1 ELSE Ang(k, 8), Ang(k, 9), Ang(k, 10) >>,
                 sca |-> << Sca(k, 11), Sca(k, 12) >>]
         ELSE [ang |-> << Ang(k, 8) >>, sca |-> << Sca(k, 11) >>]
Pos(k, t) ==
  IF Geo(k) THEN << R(k, 100 + t, 360) >>
  ELSE IF Three(k) THEN (IF Line(k) THEN << 0, R(k, 100 + t, 12), 0 >>
                         ELSE << R(k, 100 + t, 6), R(k, 200 + t, 6), R(k, 300 + t, 6) >>)
  ELSE IF Line(k) THEN << R(k, 100 + t, 16), 3 >>
  ELSE << R(k, 100 + t, 15), R(k, 200 + t, 15) >>
Z(k, t) == R(k, 400 + t, 41) - 20
P(k) == TLCEval([t \in 1..N(k) |-> TLCEval(Pos(k, t))])

(* ------------------------------ distances -------------------------------- *)
(* squared (times UnitSq), or arcs *)
T(d, a, b) == IF d.geo THEN Arc(d.pts[a][1], d.pts[b][1]) ELSE DistSq(d.fr, d.pts[a], d.pts[b])
Pairs(n) == {<< a, b >> \in (1..n) \X (1..n) : a < b}
DataSet(k) ==
  LET d == TLCEval([cls |-> Class(k), geo |-> Geo(k), pts |-> P(k), zs |-> [t \in 1..N(k) |-> Z(k, t)], fr |-> Fr(k), n |-> N(k),
                    nlags |-> L(k), unitsq |-> IF Geo(k) THEN 1 ELSE UnitSq(Fr(k))])
      all == TLCEval({T(d, p[1], p[2]) : p \in Pairs(d.n)})
  IN [data |-> d,
      min |-> CHOOSE x \in all : \A y \in all : x <= y,
      max |-> CHOOSE x \in all : \A y \in all : y <= x]

(* compares  t  with the lower end  m + n (M - m) / L  of class n + 1:       *)
(* 1 above, 0 on it, -1 below                                                *)
Side(geo, l, t, m, M, n) ==
  IF geo THEN LET v == l * t - (l - n) * m - n * M IN IF v > 0 THEN 1 ELSE IF v = 0 THEN 0 ELSE -1
  ELSE \* l sqrt(t) against (l - n) sqrt(m) + n sqrt(M), squared twice
    LET v == l * l * t - (l - n) * (l - n) * m - n * n * M
    IN IF v < 0 THEN -1
       ELSE BigCmp(BigMul(Digits(v), Digits(v)),
                   BigMul(Digits(4 * n * n * (l - n) * (l - n)), BigMul(Digits(m), Digits(M))))

(* the class of a pair: the largest distance belongs to the last one; a pair *)
(* on the border of two inner classes is marked                              *)
Sorted(geo, l, t, m, M) ==
  IF m = M THEN [c |-> l, edge |-> FALSE]
  ELSE LET side == TLCEval([n \in 1..(l - 1) |-> Side(geo, l, t, m, M, n)])
       IN [c |-> IF t = M THEN l ELSE Cardinality({n \in 1..(l - 1) : side[n] >= 0}) + 1,
           edge |-> t # M /\ t # m /\ \E n \in 1..(l - 1) : side[n] = 0]

(* ------------------------------ behaviour -------------------------------- *)
Init == /\ no = Lo /\ ds = DataSet(Lo) /\ i = 1 /\ j = 2
        /\ cls = [c \in 1..ds.data.nlags |-> <<>>]
Done == j > ds.data.n
(* pair by pair; the pairs of a big set with one of its data at once         *)
Into(a, b) ==
  LET t == T(ds.data, a, b)
      s == TLCEval(Sorted(ds.data.geo, ds.data.nlags, t, ds.min, ds.max))
      dz == ds.data.zs[a] - ds.data.zs[b]
  IN << s.c, << t, dz * dz, IF s.edge THEN 1 ELSE 0 >> >>
Row(b) == LET r == TLCEval([a \in 1..(b - 1) |-> Into(a, b)])
          IN [c \in DOMAIN cls |-> TLCEval(cls[c] \o LET m == SelectSeq(r, LAMBDA x : x[1] = c) IN [t \in DOMAIN m |-> m[t][2]])]
Sort == /\ ~Done
        /\ IF Big(no) THEN cls' = Row(j) /\ i' = 1 /\ j' = j + 1
           ELSE /\ LET r == Into(i, j) IN cls' = [cls EXCEPT ![r[1]] = Append(@, r[2])]
                /\ IF i + 1 < j THEN i' = i + 1 /\ j' = j ELSE i' = 1 /\ j' = j + 1
        /\ UNCHANGED << no, ds >>
NextSet == /\ Done /\ no < Hi
           /\ no' = no + 1 /\ i' = 1 /\ j' = 2
           /\ ds' = DataSet(no + 1)
           /\ cls' = [c \in 1..ds'.data.nlags |-> <<>>]
Next == Sort \/ NextSet
Spec == Init /\ [][Next]_vars
View == << no, i, j, cls >>

(* ------------------------------ obligations ------------------------------ *)
Classes == 1..ds.data.nlags
Count == SumInt([c \in Classes |-> Len(cls[c])], 1, ds.data.nlags)
(* every pair is sorted into exactly one class *)
EveryPairOnce == Count = ((j - 1) * (j - 2)) \div 2 + i - 1
(* classes do not overlap *)
Ordered == Done =>
  LET dist == TLCEval([c \in Classes |-> {cls[c][x][1] : x \in DOMAIN cls[c]}])
  IN \A c, d \in Classes : c < d => \A x \in dist[c] : \A y \in dist[d] : x < y
Ends == Done => /\ \E x \in DOMAIN cls[ds.data.nlags] : cls[ds.data.nlags][x][1] = ds.max
                /\ ds.min # ds.max /\ ds.data.nlags > 1 => \E x \in DOMAIN cls[1] : cls[1][x][1] = ds.min

Emit == Done => PrintT("@@" \o ToJson([no |-> no, classes |-> cls] @@ ds.data))
=============================================================================
