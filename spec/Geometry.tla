------------------------------ MODULE Geometry ------------------------------
(* Exact geometry of the kriging classes: anisotropy frames, squared        *)
(* adjusted distances, adjusted coordinates, great-circle distances on a    *)
(* great circle.  Everything is an integer: angles are given by cosine and  *)
(* sine over a common hypotenuse, scalings by a fraction.                   *)
EXTENDS Residue

(* c/h and s/h are cosine and sine; h2 = h^2; h = 0 when h is irrational    *)
Angles == << [c |-> 1,  s |-> 0,  h2 |-> 1,   h |-> 1],
             [c |-> 0,  s |-> 1,  h2 |-> 1,   h |-> 1],
             [c |-> -1, s |-> 0,  h2 |-> 1,   h |-> 1],
             [c |-> 0,  s |-> -1, h2 |-> 1,   h |-> 1],
             [c |-> 4,  s |-> 3,  h2 |-> 25,  h |-> 5],
             [c |-> 3,  s |-> 4,  h2 |-> 25,  h |-> 5],
             [c |-> -3, s |-> 4,  h2 |-> 25,  h |-> 5],
             [c |-> 4,  s |-> -3, h2 |-> 25,  h |-> 5],
             [c |-> 12, s |-> 5,  h2 |-> 169, h |-> 13],
             [c |-> 1,  s |-> 1,  h2 |-> 2,   h |-> 0],
             [c |-> -1, s |-> 1,  h2 |-> 2,   h |-> 0] >>

(* ------------------------------- 2D frames ------------------------------ *)
(* the coordinate system turns counter-clockwise by the angle, so points    *)
(* turn clockwise; afterwards the second axis is stretched by a/b           *)
Adj2(fr, v) == LET A == Angles[fr.ang[1]]
                   a == fr.sca[1][1]
                   b == fr.sca[1][2]
               IN << b * (A.c * v[1] + A.s * v[2]), a * (A.c * v[2] - A.s * v[1]) >>
Unit2(fr)   == Angles[fr.ang[1]].h * fr.sca[1][2]        \* Adj2 is this many times the real vector
UnitSq2(fr) == Angles[fr.ang[1]].h2 * fr.sca[1][2] * fr.sca[1][2]

(* ------------------------------- 3D frames ------------------------------ *)
(* about x, then y, then z, counter-clockwise; then axes 2 and 3 stretched  *)
Adj3(fr, v) ==
  LET X == Angles[fr.ang[1]]
      Y == Angles[fr.ang[2]]
      Z == Angles[fr.ang[3]]
      a1 == fr.sca[1][1]
      b1 == fr.sca[1][2]
      a2 == fr.sca[2][1]
      b2 == fr.sca[2][2]
      u == << X.h * v[1], X.c * v[2] + X.s * v[3], X.c * v[3] - X.s * v[2] >>
      w == << Y.c * u[1] - Y.s * u[3], Y.h * u[2], Y.s * u[1] + Y.c * u[3] >>
      t == << Z.c * w[1] + Z.s * w[2], Z.c * w[2] - Z.s * w[1], Z.h * w[3] >>
  IN << b1 * b2 * t[1], a1 * b2 * t[2], b1 * a2 * t[3] >>
Unit3(fr) == Angles[fr.ang[1]].h * Angles[fr.ang[2]].h * Angles[fr.ang[3]].h
             * fr.sca[1][2] * fr.sca[2][2]

(* ------------------------------ both ------------------------------------ *)
Dim(fr) == IF Len(fr.sca) = 1 THEN 2 ELSE 3
Minus(p, q) == [i \in 1..Len(p) |-> p[i] - q[i]]
Adj(fr, v) == IF Dim(fr) = 2 THEN Adj2(fr, v) ELSE Adj3(fr, v)
Unit(fr)   == IF Dim(fr) = 2 THEN Unit2(fr) ELSE Unit3(fr)
UnitSq(fr) == IF Dim(fr) = 2 THEN UnitSq2(fr) ELSE Unit3(fr) * Unit3(fr)

(* squared adjusted distance, times UnitSq(fr) *)
DistSq(fr, p, q) == LET d == Adj(fr, Minus(p, q))
                    IN SumInt([i \in 1..Len(d) |-> d[i] * d[i]], 1, Len(d))

(* twice the centre of the data: mid-range of every coordinate *)
RECURSIVE MaxC(_, _, _)
MaxC(P, i, k) == IF k = 1 THEN P[1][i] ELSE Max(P[k][i], MaxC(P, i, k - 1))
RECURSIVE MinC(_, _, _)
MinC(P, i, k) == IF k = 1 THEN P[1][i] ELSE Min(P[k][i], MinC(P, i, k - 1))
Centre2(P) == [i \in 1..Len(P[1]) |-> MaxC(P, i, Len(P)) + MinC(P, i, Len(P))]

(* adjusted coordinates (turned and stretched about the centre), times      *)
(* 2 * Unit(fr); only for frames with rational angles                       *)
Adjusted(fr, P, q) ==
  LET c2 == Centre2(P)
      d  == Adj(fr, [i \in 1..Len(q) |-> 2 * q[i] - c2[i]])
  IN [i \in 1..Len(q) |-> d[i] + Unit(fr) * c2[i]]

(* great-circle distance in degrees between two positions, in degrees, on   *)
(* one great circle                                                         *)
Arc(t1, t2) == LET d == (t1 - t2) % 360 IN Min(d, 360 - d)
=============================================================================
