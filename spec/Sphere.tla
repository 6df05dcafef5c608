------------------------------- MODULE Sphere -------------------------------
(* Distances on the sphere at places whose cosines and sines are rational,   *)
(* so that the cosine of every distance is rational as well, and laws of     *)
(* distances that are linear in the coordinates (along meridians and the     *)
(* equator, over the poles, across the antimeridian), in whole units.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Step

VARIABLES p, q, done
vars == << p, q, done >>

(* angles << c, s, d >>: cosine c/d, sine s/d                                *)
Base == {<< 1, 0, 1 >>, << 4, 3, 5 >>, << 12, 5, 13 >>}
Turn(a) == {<< a[1], a[2], a[3] >>, << -a[1], a[2], a[3] >>, << a[1], -a[2], a[3] >>, << -a[1], -a[2], a[3] >>}
All == UNION {Turn(a) \cup Turn(<< a[2], a[1], a[3] >>) : a \in Base}
Lons == All
Lats == {a \in All : a[1] >= 0}
Places == {[lon |-> l, lat |-> b] : l \in Lons, b \in Lats}

(* unit vector over a common denominator                                     *)
Vec(x) == << x.lat[1] * x.lon[1], x.lat[1] * x.lon[2], x.lat[2] * x.lon[3] >>
Den(x) == x.lat[3] * x.lon[3]
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
Cosine(x, y) == << Dot(Vec(x), Vec(y)), Den(x) * Den(y) >>       \* of the distance
Sine2(x, y) == LET c == Cross(Vec(x), Vec(y)) IN Dot(c, c)        \* times the squared denominator

(* what a distance has to fulfil                                              *)
OnTheSphere == Dot(Vec(p), Vec(p)) = Den(p) * Den(p)
Consistent == LET c == Cosine(p, q) IN Sine2(p, q) = c[2] * c[2] - c[1] * c[1]
Symmetric == Cosine(p, q) = Cosine(q, p)
SamePlace == (Cosine(p, q)[1] = Cosine(p, q)[2]) <=> (Vec(p)[1] * Den(q) = Vec(q)[1] * Den(p) /\ Vec(p)[2] * Den(q) = Vec(q)[2] * Den(p) /\ Vec(p)[3] * Den(q) = Vec(q)[3] * Den(p))

(* ----------------------------- linear laws -------------------------------- *)
(* in whole degrees: places with the same or the opposite longitude, and     *)
(* places on the equator                                                     *)
Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(x) == LET y == x % 360 IN IF y > 180 THEN 360 - y ELSE y
Law(a) == \* a = << lon1, lat1, lon2, lat2 >>
  CASE a[2] = 0 /\ a[4] = 0           -> Wrap(a[1] - a[3])
    [] Wrap(a[1] - a[3]) = 0          -> Abs(a[2] - a[4])
    [] Wrap(a[1] - a[3]) = 180        -> IF a[2] + a[4] >= 0 THEN 180 - a[2] - a[4] ELSE 180 + a[2] + a[4]
    [] Abs(a[2]) = 90                 -> Abs(a[2] - a[4])
    [] Abs(a[4]) = 90                 -> Abs(a[2] - a[4])
    [] OTHER                          -> -1
Grid == {i * Step : i \in (-180 \div Step)..(540 \div Step)}
Lat == {i * Step : i \in (-90 \div Step)..(90 \div Step)}
Quads == {a \in Grid \X Lat \X {0, 180, -90, 360} \X Lat : Law(a) >= 0}
LawHolds == Mode = "laws" => /\ Law(p) \in 0..180
                             /\ Law(p) = Law(<< p[3], p[4], p[1], p[2] >>)
                             /\ Law(<< p[1], -p[2], p[3], -p[4] >>) = Law(p)

Init == /\ done = 0
        /\ IF Mode = "laws" THEN p \in Quads /\ q = 0
           ELSE IF Mode = "emit" THEN p \in Places /\ q = 0
           ELSE p \in Places /\ q \in Places
Next == /\ done = 0
        /\ done' = 1
        /\ Mode # "check"
        /\ UNCHANGED << p, q >>
        /\ IF Mode = "laws" THEN PrintT("@@" \o ToJson([a |-> p, d |-> Law(p)]))
           ELSE PrintT("@@" \o ToJson([p |-> p, row |-> {[q |-> y, cos |-> Cosine(p, y), sin2 |-> Sine2(p, y)] : y \in Places}]))
Spec == Init /\ [][Next]_vars
=============================================================================
