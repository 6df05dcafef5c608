----------------------------- MODULE Scenarios -----------------------------
(* The space of scenarios (data, settings and one request), indexed by      *)
(* natural numbers, and the exact answer of each one.                       *)
(*                                                                          *)
(* TLC enumerates the scenarios Lo..Hi of the given Focus, solves each one, *)
(* checks the model's obligations and prints scenario and answer; the       *)
(* conformance harness puts the same scenario to the real classes.          *)
EXTENDS Kriging, Json

CONSTANTS Lo, Hi, Seed, Focus

VARIABLES no, phase, ok
vars == << no, phase, ok >>

(* ------------------------- pseudo-random choices ------------------------ *)
Mix(a, b) == LET x == (a * 4637 + b * 911 + 17) % 46337
                 y == (((x * x) % 46337) + x * 29 + b * 7 + 1) % 46337
             IN (((y * y) % 46309) + y * 31 + a) % 46337
H(k, salt) == Mix(Mix(Mix(((Seed % 9973) * 37 + 11) % 46337, k % 40009), salt), k \div 40009 + salt)
R(k, salt, n) == (H(k, salt) \div 5) % n
Pick(k, salt, s) == s[R(k, salt, Len(s)) + 1]
Chance(k, salt, pct) == R(k, salt, 100) < pct

(* ------------------------------ settings -------------------------------- *)
Cls(k) ==
  CASE Focus \in {"system", "style", "backend"} -> Pick(k, 1, <<"ok", "uk", "ok3d", "uk3d">>)
    [] Focus = "frame"    -> Pick(k, 1, <<"ok", "uk", "ok3d", "uk3d">>)
    [] Focus = "window"   -> Pick(k, 1, <<"ok", "ok", "ok3d">>)
    [] Focus = "drift"    -> Pick(k, 1, <<"uk", "uk", "uk3d">>)
    [] Focus = "external" -> "uk"
    [] Focus = "sphere"   -> "ok"
    [] Focus = "stats"    -> Pick(k, 1, <<"ok", "uk", "ok3d", "uk3d", "ok">>)
    [] Focus = "pinv"     -> Pick(k, 1, <<"ok", "uk", "ok3d", "uk3d">>)
    [] OTHER              -> "ok"

Is3(c) == c \in {"ok3d", "uk3d"}
IsU(c) == c \in {"uk", "uk3d"}

Geo(k) == /\ Cls(k) = "ok"
          /\ \/ Focus = "sphere"
             \/ Focus \in {"system", "style", "backend", "window", "stats"} /\ Chance(k, 2, 25)

(* layout: "gen" scattered, "axis" all distances integer, "circle" *)
Lay(k) == IF Geo(k) THEN "circle"
          ELSE IF Focus \in {"external", "pinv"} THEN "gen"
          ELSE Pick(k, 3, <<"gen", "gen", "axis">>)

(* ------------------------------- frames --------------------------------- *)
Iso2 == [ang |-> <<1>>, sca |-> << <<1, 1>> >>]
Iso3 == [ang |-> <<1, 1, 1>>, sca |-> << <<1, 1>>, <<1, 1>> >>]
Scale(k, salt) == Pick(k, salt, << <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<3, 2>>, <<1, 3>> >>)
AnisoPct == IF Focus \in {"frame"} THEN 100 ELSE 50
Frame(k) ==
  IF Geo(k) THEN Iso2
  ELSE IF ~Chance(k, 4, AnisoPct) THEN (IF Is3(Cls(k)) THEN Iso3 ELSE Iso2)
  ELSE IF Is3(Cls(k))
    THEN IF Lay(k) = "axis"
           THEN [ang |-> <<R(k, 5, 4) + 1, R(k, 6, 4) + 1, R(k, 7, 4) + 1>>,
                 sca |-> << Pick(k, 8, << <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>> >>),
                            IF Focus \in {"frame", "system", "stats"} /\ Chance(k, 71, 25)
                              THEN Pick(k, 72, << <<25, 1>>, <<1, 25>> >>)
                              ELSE Pick(k, 9, << <<1, 1>>, <<2, 1>>, <<1, 2>> >>) >>]
           ELSE (* one oblique angle at most, the others quarter turns *)
                [ang |-> << IF R(k, 10, 3) = 0 THEN R(k, 5, 8) + 1 ELSE R(k, 5, 4) + 1,
                            IF R(k, 10, 3) = 1 THEN R(k, 6, 8) + 1 ELSE R(k, 6, 4) + 1,
                            IF R(k, 10, 3) = 2 THEN R(k, 7, 8) + 1 ELSE R(k, 7, 4) + 1 >>,
                 sca |-> << Scale(k, 8), Pick(k, 9, << <<1, 1>>, <<2, 1>>, <<1, 2>> >>) >>]
    ELSE [ang |-> << IF Lay(k) = "axis" THEN R(k, 5, 8) + 1 ELSE R(k, 5, 11) + 1 >>,
          sca |-> << IF Lay(k) = "axis" /\ R(k, 5, 8) < 4 /\ Focus \in {"frame", "system", "stats"} /\ Chance(k, 71, 25)
                       THEN Pick(k, 72, << <<25, 1>>, <<1, 25>>, <<40, 1>>, <<1, 40>> >>)
                       ELSE Scale(k, 8) >>]

Rational(fr) == \A a \in 1..Len(fr.ang) : Angles[fr.ang[a]].h # 0

(* ------------------------------- drift ---------------------------------- *)
RECURSIVE AxisOf(_, _, _, _)
AxisOf(k, t, from, to) ==
  IF from > to THEN <<from>>
  ELSE <<from>> \o AxisOf(k, t + 1, from + Pick(k, t, <<1, 2, 4, 8, 8>>), to)
Grid(k) == LET ax == TLCEval(AxisOf(k, 500, -6 - R(k, 498, 3), 22))
               ay == TLCEval(AxisOf(k, 540, -6 - R(k, 499, 3), 22))
           IN [ax |-> ax, ay |-> ay,
               z |-> TLCEval([r \in 1..Len(ay) |-> TLCEval([c \in 1..Len(ax) |-> R(k, 600 + 37 * r + c, 19) - 9])])]
NoGrid == [ax |-> <<>>, ay |-> <<>>, z |-> <<>>]

DriftPct == IF Focus = "drift" THEN 60 ELSE IF Focus = "external" THEN 30 ELSE 35
Drift(k) ==
  IF ~IsU(Cls(k)) \/ Focus = "pinv" THEN [lin |-> FALSE, ext |-> FALSE, spec |-> 0, fun |-> <<>>]
  ELSE [lin  |-> Chance(k, 30, DriftPct),
        ext  |-> /\ ~Is3(Cls(k)) /\ Lay(k) = "gen"
                 /\ (Focus = "external" \/ Chance(k, 31, DriftPct)),
        spec |-> IF Chance(k, 32, DriftPct) THEN Pick(k, 33, << 1, 2, 3, 1, 2 >>) ELSE 0,
        fun  |-> IF Chance(k, 34, DriftPct) /\ Rational(Frame(k)) /\ Lay(k) = "gen"
                   THEN (IF Is3(Cls(k))
                           THEN Pick(k, 35, << <<"xy">>, <<"yz">>, <<"xx", "yz">>, <<"xx">>, <<"yy", "yz", "xy">>, <<"xx", "xy", "yz">> >>)
                           ELSE Pick(k, 35, << <<"xy">>, <<"xx">>, <<"xy", "xx">>, <<"xx", "xy">>, <<"yy", "xy", "xx">>, <<"xy", "yy", "xx">> >>))
                   ELSE <<>>]

(* ----------------------------- positions -------------------------------- *)
(* scattered: powers of a primitive root never repeat a cell                *)
Cell2(k, t) == LET c == (((R(k, 20, 200) + 1) * Pow(2, 7 * t + R(k, 300 + t, 7), 211)) % 211)
               IN << c % 15, c \div 15 >>
Cell3(k, t) == LET c == (((R(k, 20, 120) + 1) * Pow(3, 6 * t + R(k, 300 + t, 6), 127)) % 127)
               IN << c % 5, (c \div 5) % 5, c \div 25 >>

(* integer distances between any two: an axis and two apexes above it       *)
Axis == << <<0, 0>>, <<5, 0>>, <<-5, 0>>, <<9, 0>>, <<-9, 0>>, <<16, 0>>, <<-16, 0>>,
           <<35, 0>>, <<-35, 0>>, <<0, 12>>, <<0, -12>> >>
AxisPoint(k, t) == Axis[((R(k, 21, 11) + t * (R(k, 22, 10) + 1)) % 11) + 1]

(* pull a point of the adjusted frame back to original coordinates,         *)
(* multiplied by h * a (2D), so that it is integral                         *)
Pull2(fr, v) == LET A == Angles[fr.ang[1]]
                    a == fr.sca[1][1]
                    b == fr.sca[1][2]
                IN << A.c * v[1] * a - A.s * v[2] * b, A.s * v[1] * a + A.c * v[2] * b >>
PullUnit2(fr) == Angles[fr.ang[1]].h * fr.sca[1][1]

(* 3D, quarter turns only: undo stretching, then z, y, x rotations          *)
Pull3(fr, v) ==
  LET X == Angles[fr.ang[1]]
      Y == Angles[fr.ang[2]]
      Z == Angles[fr.ang[3]]
      a1 == fr.sca[1][1]
      b1 == fr.sca[1][2]
      a2 == fr.sca[2][1]
      b2 == fr.sca[2][2]
      t == << a1 * a2 * v[1], b1 * a2 * v[2], a1 * b2 * v[3] >>
      w == << Z.c * t[1] - Z.s * t[2], Z.s * t[1] + Z.c * t[2], t[3] >>
      u == << Y.c * w[1] + Y.s * w[3], w[2], Y.c * w[3] - Y.s * w[1] >>
  IN << u[1], X.c * u[2] - X.s * u[3], X.s * u[2] + X.c * u[3] >>
PullUnit3(fr) == fr.sca[1][1] * fr.sca[2][1]

Embed(k, v) == CASE R(k, 23, 3) = 0 -> << v[1], v[2], 0 >>
                 [] R(k, 23, 3) = 1 -> << v[2], 0, v[1] >>
                 [] OTHER           -> << 0, v[1], v[2] >>

(* some scenarios consist of two clusters far apart compared with the        *)
(* separations inside a cluster                                             *)
Plus(p, q) == [i \in 1..Len(p) |-> p[i] + q[i]]
Apart(k) == /\ Focus \in {"system", "style", "backend", "window"}
            /\ Lay(k) = "gen"
            /\ ~Drift(k).ext
            /\ Drift(k).fun = <<>>
            /\ Chance(k, 61, 30)
Away(k, t, dim) == [i \in 1..dim |-> IF Apart(k) /\ t % 3 = 1 /\ (i = R(k, 62, dim) + 1 \/ Chance(k, 63, 30))
                                      THEN 200 ELSE 0]

Pos(k, t) ==
  CASE Lay(k) = "gen"  -> IF Is3(Cls(k)) THEN Plus(Cell3(k, t), Away(k, t, 3)) ELSE Plus(Cell2(k, t), Away(k, t, 2))
    [] Lay(k) = "axis" -> IF Is3(Cls(k)) THEN Pull3(Frame(k), Embed(k, AxisPoint(k, t)))
                          ELSE Pull2(Frame(k), AxisPoint(k, t))
    [] OTHER -> << (((R(k, 24, 350) + 1) * Pow(7, 11 * t + R(k, 300 + t, 11), 359)) % 359) >>

PullUnit(k) == IF Lay(k) # "axis" THEN 1
               ELSE IF Is3(Cls(k)) THEN PullUnit3(Frame(k)) ELSE PullUnit2(Frame(k))

(* --------------------------- data and variogram ------------------------- *)
N(k) == IF Focus = "stats" THEN 4 + R(k, 40, 3)
        ELSE IF IsU(Cls(k)) /\ Focus # "pinv" THEN 7 + R(k, 40, 3) + (IF Len(Drift(k).fun) = 3 THEN 2 ELSE 0) + (IF Drift(k).spec = 3 THEN 1 ELSE 0)
        ELSE 4 + R(k, 40, 4)

Vk(k) == CASE Lay(k) = "gen" ->
                 IF Focus = "pinv" THEN "table"
                 ELSE IF ~Is3(Cls(k)) /\ Frame(k).ang[1] <= 4 /\ Chance(k, 41, 40) THEN "power2"
                 ELSE "table"
           [] Lay(k) = "axis" -> Pick(k, 41, <<"linear", "spherical", "table">>)
           [] OTHER -> Pick(k, 41, <<"linear", "spherical", "table">>)

DS(k) == IF Geo(k) THEN 1 ELSE UnitSq(Frame(k)) * PullUnit(k) * PullUnit(k)

Vp(k) == CASE Vk(k) = "table"     -> << IF DS(k) > 50 THEN 1 ELSE 16, 0 >>
           [] Vk(k) = "linear"    -> << R(k, 42, 9) + 1, 0 >>
           [] Vk(k) = "spherical" -> << R(k, 42, 9) + 1, R(k, 43, 40) + 4 >>
           [] Vk(k) = "power2"    -> << R(k, 42, 2) + 1, 0 >>
Nug(k) == IF Focus = "pinv" THEN 0
          ELSE IF Vk(k) = "power2" THEN 3 + R(k, 44, 20) ELSE Pick(k, 44, <<0, 0, 1, 2, 5>>)

(* repeated locations for the pseudo-inverse: point t repeats point Dup     *)
Dups(k) == IF Focus = "pinv" THEN R(k, 45, 3) ELSE 0

Base(k) ==
  LET n == N(k) IN
  [id |-> k, cls |-> Cls(k), geo |-> Geo(k), lay |-> Lay(k), fr |-> Frame(k),
   pts |-> TLCEval([t \in 1..n |-> Pos(k, t)]),
   zs  |-> TLCEval([t \in 1..n |-> R(k, 100 + t, 41) - 20]),
   vk |-> Vk(k), vp |-> Vp(k), nug |-> Nug(k), ds |-> DS(k),
   exact |-> IF Focus = "pinv" THEN TRUE ELSE Chance(k, 46, 65),
   drift |-> Drift(k),
   grid |-> IF Drift(k).ext THEN Grid(k) ELSE NoGrid,
   sdat |-> TLCEval([d \in 1..Drift(k).spec |-> TLCEval([t \in 1..n |-> R(k, 700 + 20 * d + t, 23) - 11])]),
   k |-> IF Focus = "window" \/ (Focus \in {"system", "backend"} /\ ~IsU(Cls(k)) /\ Chance(k, 47, 20))
         THEN 2 + R(k, 48, n - 1) ELSE 0,
   pu |-> PullUnit(k)]

(* ------------------------------- request -------------------------------- *)
(* coordinates asked for: data coordinates and others                       *)
QPoint(k, t, n) == IF Chance(k, 800 + t, 35) THEN Pos(k, R(k, 820 + t, n) + 1)
                   ELSE IF Lay(k) # "gen" THEN Pos(k, IF n >= 11 THEN R(k, 840 + t, n) + 1 ELSE n + 1 + R(k, 840 + t, 11 - n))
                   ELSE IF Is3(Cls(k))
                     THEN Plus(<< R(k, 860 + t, 9) - 2, R(k, 880 + t, 9) - 2, R(k, 900 + t, 9) - 2 >>, Away(k, R(k, 64 + t, 3), 3))
                     ELSE Plus(<< R(k, 860 + t, 22) - 4, R(k, 880 + t, 22) - 4 >>, Away(k, R(k, 64 + t, 3), 2))

Style(k) == IF Lay(k) # "gen" THEN "points"
            ELSE IF Focus = "style" THEN Pick(k, 50, <<"grid", "masked">>)
            ELSE Pick(k, 50, <<"points", "grid", "masked">>)

Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* an axis of 1..3 distinct coordinates: some of the data, some not; may descend *)
AxisQ(k, salt, c, n) ==
  LET m == R(k, salt, 3) + 1
      vals == {QPoint(k, (salt % 13) + t, n)[c] : t \in 1..m}
      a == Ascending(vals)
  IN IF Chance(k, salt + 1, 20) THEN Reverse(a) ELSE a

Axes(k, n) == IF Is3(Cls(k)) THEN << AxisQ(k, 51, 1, n), AxisQ(k, 54, 2, n), AxisQ(k, 57, 3, n) >>
              ELSE << AxisQ(k, 51, 1, n), AxisQ(k, 54, 2, n) >>

CellsOf(ax) ==
  IF Len(ax) = 2
    THEN [t \in 1..(Len(ax[1]) * Len(ax[2])) |->
            << ax[1][((t - 1) % Len(ax[1])) + 1], ax[2][((t - 1) \div Len(ax[1])) + 1] >>]
    ELSE [t \in 1..(Len(ax[1]) * Len(ax[2]) * Len(ax[3])) |->
            << ax[1][((t - 1) % Len(ax[1])) + 1],
               ax[2][(((t - 1) \div Len(ax[1])) % Len(ax[2])) + 1],
               ax[3][((t - 1) \div (Len(ax[1]) * Len(ax[2]))) + 1] >>]

Request(k, n, nd) ==
  LET st == Style(k)
      ax == IF st = "points" THEN <<>> ELSE TLCEval(Axes(k, n))
      cells == IF st = "points" THEN TLCEval([t \in 1..(2 + R(k, 60, 4)) |-> QPoint(k, t, n)])
               ELSE TLCEval(CellsOf(ax))
  IN [style |-> st, axes |-> ax, cells |-> cells,
      mask |-> TLCEval([t \in 1..Len(cells) |-> st = "masked" /\ Chance(k, 1000 + t, 40)]),
      sv   |-> TLCEval([t \in 1..Len(cells) |-> TLCEval([d \in 1..nd |-> R(k, 1100 + 60 * d + t, 23) - 11])])]

(* ------------------------------- answers -------------------------------- *)
Ids(n) == [t \in 1..n |-> t]

Answer(sc, rq) ==
  LET asked == {t \in 1..Len(rq.cells) : ~rq.mask[t]}
      seq == Ascending(asked)
      Q(t) == [q |-> rq.cells[t], sv |-> rq.sv[t]]
  IN IF seq = <<>> THEN [ok |-> TRUE, seq |-> <<>>, sol |-> <<>>]
     ELSE IF sc.k = 0
       THEN LET e == Exact(sc, Ids(Len(sc.pts)), [t \in 1..Len(seq) |-> Q(seq[t])])
            IN [ok |-> e.ok, seq |-> seq, sol |-> <<e>>]
       ELSE LET w(t) == Window(sc, rq.cells[seq[t]], sc.k)
                e == TLCEval([t \in 1..Len(seq) |->
                       IF w(t).tie THEN [tie |-> TRUE, ok |-> TRUE]
                       ELSE Exact(sc, w(t).idx, << Q(seq[t]) >>)])
            IN [ok |-> \A t \in 1..Len(seq) : e[t].ok, seq |-> seq, sol |-> e]

(* sequential cross-validation: datum t kriged from data 1..t-1, ordinary   *)
(* kriging, zero separation always exact                                    *)
StatSc(sc, t) == [sc EXCEPT !.exact = TRUE, !.drift = [lin |-> FALSE, ext |-> FALSE, spec |-> 0, fun |-> <<>>]]
Stats(sc) ==
  LET e == TLCEval([t \in 2..Len(sc.pts) |->
             Exact(StatSc(sc, t), Ids(t - 1), << [q |-> sc.pts[t], sv |-> <<>>] >>)])
  IN [ok |-> \A t \in 2..Len(sc.pts) : e[t].ok,
      seq |-> [t \in 1..(Len(sc.pts) - 1) |-> t + 1],
      sol |-> [t \in 1..(Len(sc.pts) - 1) |-> e[t + 1]]]

(* repeated locations without nugget: the answer is that of the data set    *)
(* in which they are merged and averaged.  The values are multiples of 6,   *)
(* so averages of up to three are integers.                                 *)
Repeats(k, n) == [d \in 1..Dups(k) |-> R(k, 46 + d, n) + 1]
Count(s, x) == Cardinality({t \in 1..Len(s) : s[t] = x})
ExtraVal(k, d) == 6 * (R(k, 140 + d, 11) - 5)

PinvScenario(k) ==
  LET b == Base(k)
      n == Len(b.pts)
      rep == Repeats(k, n)
      base == [t \in 1..n |-> 6 * (R(k, 100 + t, 11) - 5)]
      avg(t) == (base[t] + SumInt([d \in 1..Len(rep) |-> IF rep[d] = t THEN ExtraVal(k, d) ELSE 0], 1, Len(rep)))
                \div (1 + Count(rep, t))
  IN [model |-> [b EXCEPT !.zs = [t \in 1..n |-> avg(t)]],
      real  |-> [b EXCEPT !.pts = b.pts \o [d \in 1..Len(rep) |-> b.pts[rep[d]]],
                          !.zs = base \o [d \in 1..Len(rep) |-> ExtraVal(k, d)]]]

Report(k) ==
  IF Focus = "pinv" THEN
    LET s == PinvScenario(k)
        rq == TLCEval(Request(k, Len(s.model.pts), 0))
        an == Answer(s.model, rq)
    IN [sc |-> s.real, rq |-> rq, an |-> an]
  ELSE
    LET sc == TLCEval(Base(k))
        rq == TLCEval(Request(k, Len(sc.pts), sc.drift.spec))
        an == IF Focus = "stats" THEN Stats(sc) ELSE Answer(sc, rq)
    IN [sc |-> sc, rq |-> rq, an |-> an]

(* ------------------------------ behaviour ------------------------------- *)
Init == no \in Lo..Hi /\ phase = "asked" /\ ok = TRUE
Answered == LET r == TLCEval(Report(no))
            IN /\ phase = "asked"
               /\ phase' = "answered"
               /\ ok' = r.an.ok
               /\ PrintT("@@" \o ToJson(r))
               /\ UNCHANGED no
Next == Answered
Spec == Init /\ [][Next]_vars

(* the solution of every system is unbiased, reproduces its drift terms and *)
(* is exact at data positions                                               *)
ModelObligations == ok
=============================================================================
