------------------------------ MODULE Meaning -------------------------------
(* What an answer means.                                                     *)
(*                                                                           *)
(* A kriging object is described by its settings, in the terms in which they *)
(* were given (class, notation of the variogram, frame of the coordinates,   *)
(* declaration of the drift ...).  Meaning maps a requested position to the  *)
(* canonical question it asks.  Everything that must not influence an answer *)
(* (history, backend, request style, notation, order of the data, frame of   *)
(* the coordinates, number types ...) is absent from the canonical question. *)
(*                                                                           *)
(* Settings s of an object:                                                  *)
(*   cls    "ok" | "uk" | "ok3d" | "uk3d"      geo   geographic coordinates  *)
(*   data   sequence of base positions (tuples of integers)                  *)
(*   co     <<c1, c2, b>>: values are c1*basis1 + c2*basis2 + b + drift part *)
(*   dco    sequence of [code, d]: the drift part of the values              *)
(*   rot    turns (degrees) of the actual coordinates against base positions *)
(*   vario  [kind, how, p, nlags, weight, gang, gsca]                        *)
(*   ang, sca   anisotropy angles (degrees, or 1000 + index into Angles) and *)
(*              scalings (reduced fractions)                                 *)
(*   exact  exact_values                                                     *)
(*   drift  sequence of codes; "lin" stands for all linear terms, "fx" ...   *)
(*          are functional terms in adjusted coordinates                     *)
EXTENDS Kriging

Rng(f) == {f[i] : i \in DOMAIN f}

(* --------------------------- the variogram ------------------------------- *)
(* partial sill, range and nugget, whatever the notation; a linear model is  *)
(* a power model of exponent one (exponents in tenths)                       *)
(* covariance models measure the sphere by chords                           *)
KindOf(v, geo) == IF v.how = "gs" /\ geo THEN v.kind \o "-chord" ELSE v.kind
KernelOf(v, geo) ==
  CASE v.how = "fit"    -> << "fit", v.kind, v.nlags, IF v.weight THEN 1 ELSE 0 >>
    [] v.kind = "linear" -> << "power", v.p[1], 10, v.p[2] >>
    [] v.kind = "power"  -> << "power", v.p[1], v.p[2], v.p[3] >>
    [] v.how \in {"list", "sill"} -> << v.kind, v.p[1] - v.p[3], v.p[2], v.p[3] >>
    [] OTHER             -> << KindOf(v, geo), v.p[1], v.p[2], v.p[3] >>
Fitted(s) == s.vario.how = "fit"
NuggetOf(s) == IF Fitted(s) THEN -1 ELSE KernelOf(s.vario, s.geo)[4]

(* a covariance model brings its own anisotropy *)
AngOf(s) == IF s.vario.how = "gs" THEN s.vario.gang ELSE s.ang
ScaOf(s) == IF s.vario.how = "gs" THEN s.vario.gsca ELSE s.sca

(* update_variogram_model: what is not given returns to its default          *)
Updated(s, u) ==
  [s EXCEPT !.vario = u.vario,
            !.ang = IF u.hasani THEN u.ang ELSE [i \in 1..Len(s.ang) |-> 0],
            !.sca = IF u.hasani THEN u.sca ELSE [i \in 1..Len(s.sca) |-> <<1, 1>>]]

(* ------------------------------ the frame -------------------------------- *)
Plain(a) == a < 1000
Zero(a) == Plain(a) /\ a % 360 = 0
Iso(s) == \A i \in DOMAIN ScaOf(s) : ScaOf(s)[i][1] = ScaOf(s)[i][2]
NoTurn(s) == (\A i \in DOMAIN AngOf(s) : Zero(AngOf(s)[i])) /\ (\A i \in DOMAIN s.rot : s.rot[i] % 360 = 0)

(* turning coordinates by r and the anisotropy frame by r cancels; half a    *)
(* turn of the frame changes no distance                                     *)
Turn2(a, r) == IF Plain(a) THEN (a - r) % 180 ELSE IF r % 360 = 0 THEN a ELSE 10000 + a + 1000 * (r % 360)
Frame2(s) == IF Iso(s) THEN << "iso" >>
             ELSE << "aniso2", Turn2(AngOf(s)[1], s.rot[1]), ScaOf(s)[1] >>

Frame3(s) ==
  LET a == AngOf(s)
      r == s.rot
      m(t) == IF Plain(t) THEN t % 360 ELSE t
      only(i) == \A j \in 1..3 : j # i => r[j] % 360 = 0
  IN IF Iso(s) THEN << "iso" >>
     ELSE IF only(1) /\ Plain(a[1]) THEN << "aniso3", (a[1] - r[1]) % 360, m(a[2]), m(a[3]), ScaOf(s) >>
     ELSE IF only(2) /\ Plain(a[2]) /\ Zero(a[1]) THEN << "aniso3", 0, (a[2] - r[2]) % 360, m(a[3]), ScaOf(s) >>
     ELSE IF only(3) /\ Plain(a[3]) /\ Zero(a[1]) /\ Zero(a[2])
       THEN << "aniso3", 0, 0, (a[3] - r[3]) % 360, ScaOf(s) >>
     ELSE << "aniso3r", [i \in 1..3 |-> m(a[i])], r, ScaOf(s) >>

Three(s) == s.cls \in {"ok3d", "uk3d"}

(* data and request in one horizontal plane, frame upright: a 2D question    *)
Planar(s, q) == /\ Three(s)
                /\ Zero(AngOf(s)[1]) /\ Zero(AngOf(s)[2])
                /\ s.rot[1] % 360 = 0 /\ s.rot[2] % 360 = 0
                /\ \A i \in DOMAIN s.data : s.data[i][3] = q[3]
Flat(p) == << p[1], p[2] >>
PlanarFrame(s) == IF ScaOf(s)[1][1] = ScaOf(s)[1][2] THEN << "iso" >>
                  ELSE << "aniso2", Turn2(AngOf(s)[3], s.rot[3]), ScaOf(s)[1] >>

(* the same place on the sphere                                              *)
Place(p) == IF p[2] \in {90, -90} THEN << 0, p[2] >> ELSE << p[1] % 360, p[2] >>

(* ------------------------------- the drift ------------------------------- *)
AdjAll(s) == IF Three(s) THEN {"fx", "fy", "fz"} ELSE {"fx", "fy"}
Linear(s) == IF Three(s) THEN {"x", "y", "z"} ELSE {"x", "y"}
Unadj(c) == CASE c = "fx" -> "x" [] c = "fy" -> "y" [] c = "fz" -> "z" [] c = "fxy" -> "xy" [] OTHER -> c
DriftOf(s) ==
  LET d == Rng(s.drift)
      lin == IF "lin" \in d \/ AdjAll(s) \subseteq d THEN Linear(s) ELSE {}
      rest == IF AdjAll(s) \subseteq d THEN d \ AdjAll(s) ELSE d
  IN lin \cup {IF c \in {"fx", "fy", "fz", "fxy"} /\ Iso(s) /\ NoTurn(s) THEN Unadj(c) ELSE c : c \in rest \ {"lin"}}

(* functions of the adjusted coordinates are other drifts in other frames,   *)
(* even where no distance changes                                            *)
DriftFrame(s) ==
  LET d == Rng(s.drift)
      f == (IF AdjAll(s) \subseteq d THEN d \ AdjAll(s) ELSE d) \cap {"fx", "fy", "fz", "fxy"}
  IN IF f = {} \/ (Iso(s) /\ NoTurn(s)) THEN << >> ELSE << AngOf(s), s.rot, ScaOf(s) >>

(* ------------------------------- the window ------------------------------ *)
(* the data the answer at q rests on; tie: the window edge does not separate *)
(* (no answer is promised); unknown: the edge cannot be computed exactly     *)
AngleIndex(a) == IF ~Plain(a) THEN a - 1000
                 ELSE CASE a % 360 = 0 -> 1 [] a % 360 = 90 -> 2 [] a % 360 = 180 -> 3 [] a % 360 = 270 -> 4
                        [] OTHER -> 0
Arcs(s, q) == \* all positions on one meridian circle or on the equator
  (\A i \in DOMAIN s.data : s.data[i][2] = 0) /\ q[2] = 0
Known(sc, q, k) == LET w == Window(sc, q, k) IN [idx |-> w.idx, tie |-> w.tie, unknown |-> FALSE]
WindowOf(s, q, k) ==
  IF s.geo
    THEN IF Arcs(s, q)
           THEN Known([geo |-> TRUE, pts |-> [i \in 1..Len(s.data) |-> << s.data[i][1] >>]], << q[1] >>, k)
           ELSE [idx |-> <<>>, tie |-> FALSE, unknown |-> TRUE]
    ELSE LET ix == [i \in DOMAIN AngOf(s) |-> IF Iso(s) THEN 1 ELSE AngleIndex(AngOf(s)[i])]
         IN IF (\E i \in DOMAIN ix : ix[i] = 0) \/ (~Iso(s) /\ \E i \in DOMAIN s.rot : s.rot[i] % 360 # 0)
              THEN [idx |-> <<>>, tie |-> FALSE, unknown |-> TRUE]
              ELSE Known([geo |-> FALSE, pts |-> s.data, fr |-> [ang |-> ix, sca |-> ScaOf(s)]], q, k)

(* ------------------------------ the question ----------------------------- *)
(* used: the data indices the answer rests on                                *)
Question(s, q, k) ==
  LET n == Len(s.data)
      w == IF k = 0 \/ k = n THEN [idx |-> [i \in 1..n |-> i], tie |-> FALSE, unknown |-> FALSE] ELSE WindowOf(s, q, k)
      used == IF w.tie \/ w.unknown THEN [i \in 1..n |-> i] ELSE w.idx
      flat == ~s.geo /\ Planar(s, q)
      can(p) == IF s.geo THEN Place(p) ELSE IF flat THEN Flat(p) ELSE p
      pts == {can(s.data[used[i]]) : i \in DOMAIN used}
      hit == can(q) \in pts
      (* with a nugget, repeated samples of one place are different samples  *)
      count(p) == Cardinality({i \in DOMAIN used : can(s.data[used[i]]) = p})
      again == IF NuggetOf(s) = 0 THEN {} ELSE {<< p, count(p) >> : p \in {t \in pts : count(t) > 1}}
  IN [hit |-> hit, tie |-> w.tie,
      (* what an exact answer at a repeated place is, is open               *)
      open |-> \E a \in again : a[1] = can(q),
      at |-> IF hit THEN CHOOSE i \in 1..n : can(s.data[i]) = can(q) ELSE 0,
      key |-> << IF s.geo THEN << "sphere" >> ELSE IF flat THEN PlanarFrame(s) ELSE IF Three(s) THEN Frame3(s) ELSE Frame2(s),
                 KernelOf(s.vario, s.geo), DriftOf(s), DriftFrame(s), pts, again, can(q),
                 IF hit /\ NuggetOf(s) # 0 /\ ~s.exact THEN "smooth" ELSE "exact",
                 IF w.unknown THEN << "window", k >> ELSE << "all" >>,
                 IF Fitted(s) THEN << s.data, s.co, s.dco, s.rot, AngOf(s) >> ELSE <<>> >>]
=============================================================================
