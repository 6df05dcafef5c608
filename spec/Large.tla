-------------------------------- MODULE Large --------------------------------
(* Exact answers for many data: families of scenarios whose kriging system   *)
(* has a solution in closed form, so that the answer of a system with        *)
(* hundreds of data is a fraction of small integers.                         *)
(*                                                                           *)
(*   line     data on a line, linear variogram without nugget: the answer    *)
(*            between two data depends on these two only, outside on the end *)
(*   drift    the same with one drift term: generalised least squares of     *)
(*            independent increments                                         *)
(*   cluster  spherical variogram, data alone or in pairs, further apart     *)
(*            than the range: the covariance matrix is block diagonal        *)
(*                                                                           *)
(* The closed forms are themselves checked: Kriged says that they solve the  *)
(* kriging equations (every data set), Agrees that they are the solution     *)
(* Kriging.tla computes by elimination (small data sets, modulo primes).     *)
EXTENDS Kriging, Choice, Json
CONSTANTS Lo, Hi, Focus

VARIABLES no, sc, an
vars == << no, sc, an >>

(* -------------------------------- data ----------------------------------- *)
Kind(k) == CASE Focus = "drift" -> "drift"
             [] Focus = "window" -> Pick(k, 1, << "line", "line", "cluster" >>)
             [] OTHER -> Pick(k, 1, << "line", "line", "drift", "cluster", "cluster" >>)
Class(k) == IF Kind(k) = "drift" THEN Pick(k, 2, << "uk", "uk3d" >>)
            ELSE IF Focus = "window" THEN Pick(k, 2, << "ok", "ok3d" >>)
            ELSE Pick(k, 2, << "ok", "uk", "ok3d", "uk3d" >>)
Size(k) == CASE k % 67 = 40 -> 400 + R(k, 4, 300)
             [] R(k, 3, 10) < 3 -> 2 + R(k, 4, 5)
             [] R(k, 3, 10) < 5 -> 20 + R(k, 4, 40)
             [] R(k, 3, 10) < 8 -> 81 + R(k, 4, 60)
             [] OTHER           -> 180 + R(k, 4, 120)
Gaps(k) == Pick(k, 5, << << 1, 2, 4, 8 >>, << 1, 1, 2 >>, << 8, 4, 8, 2 >>, << 1, 8 >> >>)
Free(k) == Pick(k, 5, << << 1, 2, 3, 5, 7, 9 >>, << 1 >>, << 2, 3 >>, << 1, 9, 4 >> >>)
RECURSIVE Walk(_, _, _)
Walk(gap, i, acc) == IF i > Len(gap) THEN acc ELSE Walk(gap, i + 1, Append(acc, acc[Len(acc)] + gap[i]))
Line(k, n, g) == Walk([i \in 1..(n - 1) |-> Pick(k, 1000 + i, g)], 1, << 0 >>)
Value(k, i) == LET w == Pick(k, 6, << 41, 41, 7, 2 >>) IN R(k, 2000 + i, w) - w \div 2

(* clusters: places on a line (window) or on a lattice the host lays out;    *)
(* here a datum has a place number and an offset 0 or 2 along the line       *)
Spacing(k) == 14 + R(k, 7, 12)
Pairs(k) == Pick(k, 8, << 0, 30, 70, 100 >>)          \* percentage of places with two data
RECURSIVE Places(_, _, _, _)
Places(k, i, x, acc) ==
  IF Len(acc) >= Size(k) THEN acc
  ELSE Places(k, i + 1, x + Spacing(k) + R(k, 3000 + i, 5),
              IF Chance(k, 4000 + i, Pairs(k))
                THEN acc \o << [x |-> x, at |-> i, off |-> 0], [x |-> x + 2, at |-> i, off |-> 2] >>
              ELSE Append(acc, [x |-> x, at |-> i, off |-> 0]))

(* drift values: of the data and of any other position on the line           *)
DriftValue(k, x) == R(k, 5000 + (x + 100), Pick(k, 9, << 3, 9, 31 >>)) - 1

Dirty(k) == TLCEval(
  LET kind == Kind(k)
      n == Size(k)
      pl == Places(k, 1, 0, << >>)
      ps == IF kind = "cluster" THEN [i \in 1..Len(pl) |-> pl[i].x]
            ELSE Line(k, n, IF kind = "drift" THEN Gaps(k) ELSE Free(k))
  IN [id |-> k, kind |-> kind, cls |-> Class(k), n |-> Len(ps), pos |-> ps,
      z |-> [i \in 1..Len(ps) |-> Value(k, i)],
      off |-> IF kind = "cluster" THEN [i \in 1..Len(pl) |-> pl[i].off] ELSE << >>,
      at |-> IF kind = "cluster" THEN [i \in 1..Len(pl) |-> pl[i].at] ELSE << >>,
      f |-> IF kind = "drift" THEN [i \in 1..Len(ps) |-> DriftValue(k, ps[i])] ELSE << >>,
      a |-> 1 + R(k, 10, 4),
      nug |-> IF kind = "cluster" THEN Pick(k, 11, << 0, 32, 64 >>) ELSE 0,
      exact |-> Chance(k, 12, 60),
      k |-> IF Focus = "window" THEN Min(Len(ps), 2 + R(k, 13, Pick(k, 14, << 3, 8, 30, 150 >>))) ELSE 0])

(* ------------------------------- requests -------------------------------- *)
(* places of the request: on data, between them, beyond the ends             *)
Ask(s, t) ==
  LET i == 1 + R(s.id, 100 + t, s.n)
      e == R(s.id, 200 + t, 10)
      d == 1 + R(s.id, 300 + t, 3)
  IN CASE s.kind = "cluster" -> [x |-> s.pos[i] - s.off[i] + R(s.id, 400 + t, 9) - 3, at |-> s.at[i]]
       [] e < 2 -> [x |-> s.pos[i], at |-> 0]
       [] e < 3 -> [x |-> s.pos[1] - d, at |-> 0]
       [] e < 4 -> [x |-> s.pos[s.n] + d, at |-> 0]
       [] OTHER -> [x |-> s.pos[i] + d, at |-> 0]
Request(s) == TLCEval([t \in 1..8 |-> Ask(s, t)])

(* ----------------------------- moving window ----------------------------- *)
(* positions ascend, so the nearest data are a stretch lo..lo+k-1            *)
Stretch(s, q) ==
  IF s.k = 0 \/ s.k = s.n THEN [lo |-> 1, hi |-> s.n, tie |-> FALSE]
  ELSE
    LET far(lo) == Max(Abs(q - s.pos[lo]), Abs(q - s.pos[lo + s.k - 1]))
        all == 1..(s.n - s.k + 1)
        d == TLCEval([lo \in all |-> far(lo)])
        best == CHOOSE lo \in all : \A j \in all : d[lo] <= d[j]
        hi == best + s.k - 1
    IN [lo |-> best, hi |-> hi,
        tie |-> \/ best > 1 /\ Abs(q - s.pos[best - 1]) = d[best]
                \/ hi < s.n /\ Abs(q - s.pos[hi + 1]) = d[best]]

(* --------------------------------- line ---------------------------------- *)
(* the neighbours of q among lo..hi, with weights wl/w and wr/w              *)
Bracket(s, lo, hi, q) ==
  IF q <= s.pos[lo] THEN [i |-> lo, j |-> lo, wi |-> 1, wj |-> 0, w |-> 1, t |-> s.pos[lo] - q, l |-> 0, r |-> 0]
  ELSE IF q >= s.pos[hi] THEN [i |-> hi, j |-> hi, wi |-> 1, wj |-> 0, w |-> 1, t |-> q - s.pos[hi], l |-> 0, r |-> 0]
  ELSE LET i == CHOOSE m \in lo..(hi - 1) : s.pos[m] <= q /\ q < s.pos[m + 1]
           l == q - s.pos[i]
           r == s.pos[i + 1] - q
       IN [i |-> i, j |-> i + 1, wi |-> r, wj |-> l, w |-> l + r, t |-> 0, l |-> l, r |-> r]
Interp(b, v) == b.wi * v[b.i] + b.wj * v[b.j]                 \* over b.w

(* terms of the answer:  estimate = en / ed + (e2n / e2d)                    *)
(*                       variance = vn / vd + (v2n / v2d)                    *)
LineAnswer(s, q) ==
  LET st == Stretch(s, q)
      b == Bracket(s, st.lo, st.hi, q)
  IN [tie |-> st.tie, lo |-> st.lo, hi |-> st.hi,
      e |-> << << Interp(b, s.z), b.w >> >>,
      v |-> << << IF b.t > 0 THEN 2 * s.a * b.t ELSE 2 * s.a * b.l * b.r, b.w >> >>]

(* weights w_i, w_j and multiplier t solve the kriging equations             *)
LineKriged(s, q) ==
  LET st == Stretch(s, q)
      b == Bracket(s, st.lo, st.hi, q)
  IN \A m \in st.lo..st.hi :
       b.wi * Abs(s.pos[m] - s.pos[b.i]) + b.wj * Abs(s.pos[m] - s.pos[b.j]) + b.w * b.t
         = b.w * Abs(q - s.pos[m])

(* --------------------------------- drift --------------------------------- *)
Inc(s, v, w) == SumInt([i \in 1..(s.n - 1) |->
                  (8 \div (s.pos[i + 1] - s.pos[i])) * (v[i + 1] - v[i]) * (w[i + 1] - w[i])], 1, s.n - 1)
DriftAnswer(s, q, S2, S1) ==
  LET b == Bracket(s, 1, s.n, q)
      hit == \E i \in 1..s.n : s.pos[i] = q
      fq == IF hit THEN s.f[CHOOSE i \in 1..s.n : s.pos[i] = q] ELSE DriftValue(s.id, q)
      g == b.w * fq - Interp(b, s.f)                        \* over b.w
  IN [tie |-> S2 = 0, lo |-> 1, hi |-> s.n, fq |-> fq,
      e |-> << << Interp(b, s.z), b.w >>, << S1, S2 >>, << g, b.w >> >>,
      v |-> << << IF b.t > 0 THEN 2 * s.a * b.t ELSE 2 * s.a * b.l * b.r, b.w >>,
               << 16 * s.a, S2 >>, << g, b.w >> >>]

(* -------------------------------- cluster -------------------------------- *)
(* sill 128 + nugget, range 4 units                                          *)
Gam(s, j) == IF j = 0 THEN (IF s.exact THEN 0 ELSE s.nug)
             ELSE (IF j >= 4 THEN 128 ELSE 48 * j - j * j * j) + s.nug
Cov(s, j) == 128 + s.nug - Gam(s, j)
ClusterAnswer(s, q, tot) ==
  LET st == Stretch(s, q.x)
      S == 128 + s.nug
      Cd == 40                                              \* covariance of the two data of a place
      in == st.lo..st.hi
      both(i) == i + 1 \in in /\ s.at[i + 1] = s.at[i]      \* first of two
      second(i) == i - 1 \in in /\ s.at[i - 1] = s.at[i]
      \* sums over the blocks of the window: 1 C^-1 1 = An / Ad, 1 C^-1 z = Bn / Ad
      n2 == IF s.k = 0 THEN tot.n2 ELSE Cardinality({i \in in : both(i)})
      n1 == (st.hi - st.lo + 1) - 2 * n2
      z1 == IF s.k = 0 THEN tot.z1
            ELSE SumInt([m \in 1..s.k |-> LET i == st.lo + m - 1 IN IF both(i) \/ second(i) THEN 0 ELSE s.z[i]], 1, s.k)
      z2 == IF s.k = 0 THEN tot.z2
            ELSE SumInt([m \in 1..s.k |-> LET i == st.lo + m - 1 IN IF both(i) \/ second(i) THEN s.z[i] ELSE 0], 1, s.k)
      An == n1 * (S + Cd) + 2 * n2 * S
      Ad == S * (S + Cd)
      Bn == (S + Cd) * z1 + S * z2
      \* the block of the request
      here == {i \in in : s.at[i] = q.at}
      D == S * S - Cd * Cd
      i1 == CHOOSE i \in here : \A j \in here : i <= j
      c1 == Cov(s, Abs(q.x - s.pos[i1]))
      c2 == Cov(s, Abs(q.x - s.pos[i1 + 1]))
      u1 == S * c1 - Cd * c2
      u2 == S * c2 - Cd * c1
      loc == IF here = {} THEN [d |-> 1, z |-> 0, o |-> 0, c |-> 0]
             ELSE IF Cardinality(here) = 1 THEN [d |-> S, z |-> c1 * s.z[i1], o |-> c1, c |-> c1 * c1]
             ELSE [d |-> D, z |-> u1 * s.z[i1] + u2 * s.z[i1 + 1], o |-> u1 + u2, c |-> u1 * c1 + u2 * c2]
  IN [tie |-> st.tie, lo |-> st.lo, hi |-> st.hi, loc |-> loc, An |-> An,
      \* the blocks solved:  C u = c  and  C v = 1
      ok |-> /\ Cardinality(here) = 2 => /\ S * u1 + Cd * u2 = D * c1
                                         /\ Cd * u1 + S * u2 = D * c2
             /\ D = (S + Cd) * (S - Cd)
             /\ n2 * 2 + n1 = st.hi - st.lo + 1
             /\ \A i \in in : s.at[i] # q.at => Abs(q.x - s.pos[i]) >= 4,
      \* estimate = z'u + (1 - 1'u) Bn/An,  variance = S - c'u + (1 - 1'u)^2 Ad/An
      e |-> << << loc.z, loc.d >>, << loc.d - loc.o, loc.d >>, << Bn, An >> >>,
      v |-> << << S * loc.d - loc.c, loc.d >>, << Ad, An >>, << loc.d - loc.o, loc.d >> >>]
Totals(s) ==
  LET second(i) == i > 1 /\ s.at[i - 1] = s.at[i]
      paired(i) == second(i) \/ (i < s.n /\ s.at[i + 1] = s.at[i])
  IN TLCEval([n2 |-> Cardinality({i \in 1..s.n : second(i)}),
              z1 |-> SumInt([i \in 1..s.n |-> IF paired(i) THEN 0 ELSE s.z[i]], 1, s.n),
              z2 |-> SumInt([i \in 1..s.n |-> IF paired(i) THEN s.z[i] ELSE 0], 1, s.n)])

(* -------------------------------- answers -------------------------------- *)
(* e:  first + product of the rest;  v: first + second * third squared       *)
Answers(s) ==
  LET rq == Request(s) IN
  CASE s.kind = "line" -> [t \in 1..8 |-> LineAnswer(s, rq[t].x)]
    [] s.kind = "drift" ->
         LET S2 == Inc(s, s.f, s.f)
             S1 == Inc(s, s.f, s.z)
         IN [t \in 1..8 |-> DriftAnswer(s, rq[t].x, S2, S1)]
    [] s.kind = "cluster" -> LET tot == Totals(s) IN [t \in 1..8 |-> ClusterAnswer(s, rq[t], tot)]

Init == no \in Lo..Hi /\ sc = << >> /\ an = << >>
Next == /\ sc = << >>
        /\ sc' = Dirty(no)
        /\ an' = TLCEval(Answers(sc'))
        /\ UNCHANGED no
Spec == Init /\ [][Next]_vars

(* ------------------------------ obligations ------------------------------ *)
Kriged == sc # << >> =>
  CASE sc.kind = "line" -> \A t \in 1..8 : LineKriged(sc, Request(sc)[t].x)
            [] sc.kind = "cluster" -> \A t \in 1..8 : an[t].ok
            [] OTHER -> TRUE

(* the general solution of Kriging.tla, modulo two primes                    *)
General(s, a, q) ==
  [geo |-> FALSE, fr |-> [ang |-> << 1 >>, sca |-> << << 1, 1 >> >>],
   pts |-> [i \in 1..s.n |-> << s.pos[i], 0 >>], zs |-> s.z,
   vk |-> IF s.kind = "cluster" THEN "spherical" ELSE "linear",
   vp |-> IF s.kind = "cluster" THEN << 128, 4 >> ELSE << s.a, 0 >>, ds |-> 1,
   nug |-> s.nug, exact |-> s.exact,
   drift |-> [lin |-> FALSE, ext |-> FALSE, spec |-> IF s.kind = "drift" THEN 1 ELSE 0, fun |-> << >>],
   sdat |-> IF s.kind = "drift" THEN << s.f >> ELSE << >>, k |-> 0]
Frac(f, p) == ((f[1] % p) * Inv(f[2] % p, p)) % p
EstMod(a, p) == IF Len(a.e) = 1 THEN Frac(a.e[1], p)
                ELSE (Frac(a.e[1], p) + ((Frac(a.e[2], p) * Frac(a.e[3], p)) % p)) % p
VarMod(a, p) == IF Len(a.v) = 1 THEN Frac(a.v[1], p)
                ELSE LET g == Frac(a.v[3], p)
                     IN (Frac(a.v[1], p) + ((Frac(a.v[2], p) * ((g * g) % p)) % p)) % p
Agrees ==
  (IF sc = << >> THEN FALSE ELSE sc.n <= 6) => \A t \in 1..8 : ~an[t].tie =>
    LET q == Request(sc)[t].x
        g == General(sc, an[t], q)
        idx == [m \in 1..(an[t].hi - an[t].lo + 1) |-> an[t].lo + m - 1]
        S == IntMatrix(g, idx, << [q |-> << q, 0 >>, sv |-> IF sc.kind = "drift" THEN << an[t].fq >> ELSE << >>] >>)
    IN \A p \in {Primes[1], Primes[5]} :
         LET r == SolveMod(g, idx, S, p, FALSE)
         IN r.det # 0 =>
              /\ r.z[1] = (EstMod(an[t], p) * r.det) % p
              /\ r.s[1] = (((VarMod(an[t], p) * GScale(g)) % p) * r.det) % p

Emit == sc # << >> => PrintT("@@" \o ToJson([sc |-> sc, rq |-> Request(sc), an |-> [t \in 1..8 |-> [tie |-> an[t].tie, e |-> an[t].e, v |-> an[t].v,
                                                                     fq |-> IF sc.kind = "drift" THEN an[t].fq ELSE 0]]]))
=============================================================================
