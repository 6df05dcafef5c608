------------------------------ MODULE Kriging ------------------------------
(* The kriging system of a scenario and its exact solution.                 *)
(*                                                                          *)
(* A scenario sc is a record:                                               *)
(*   geo      positions on a great circle instead of coordinates            *)
(*   fr       anisotropy frame [ang, sca]                                   *)
(*   pts, zs  data positions (integers) and values                          *)
(*   vk       variogram: "table" | "linear" | "spherical" | "power2"        *)
(*   vp       <<first parameter, range>>, nug: nugget, ds: divisor of       *)
(*            squared distances that makes them squares of integers         *)
(*   exact    exact_values                                                  *)
(*   drift    [lin, ext, spec, fun]                                         *)
(*   k        size of the moving window, 0: all data                        *)
EXTENDS Geometry, FiniteSets, SequencesExt

(* ----------------------------- distances -------------------------------- *)
Dq(sc, p, q) == IF sc.geo THEN LET a == Arc(p[1], q[1]) IN a * a
                ELSE DistSq(sc.fr, p, q)

(* ------------------ variogram, times GScale(sc), at D > 0 ---------------- *)
GScale(sc) ==
  CASE sc.vk = "table"     -> 1
    [] sc.vk = "linear"    -> 1
    [] sc.vk = "spherical" -> 2 * sc.vp[2] * sc.vp[2] * sc.vp[2]
    [] sc.vk = "power2"    -> sc.ds

Gamma(sc, D) ==
  CASE sc.vk = "table"  -> ISqrt(sc.vp[1] * D) + sc.nug
    [] sc.vk = "linear" -> sc.vp[1] * ISqrt(D \div sc.ds) + sc.nug
    [] sc.vk = "spherical" ->
         LET m == ISqrt(D \div sc.ds)
             r == sc.vp[2]
         IN IF m < r
              THEN sc.vp[1] * (3 * m * r * r - m * m * m) + 2 * r * r * r * sc.nug
              ELSE 2 * r * r * r * (sc.vp[1] + sc.nug)
    [] sc.vk = "power2" -> sc.vp[1] * D + sc.ds * sc.nug

(* ------------------------------- drift ---------------------------------- *)
(* bilinear interpolation on irregular ascending integer axes, times 64;    *)
(* gaps are powers of two not above 8                                       *)
Below(ax, x) == CHOOSE i \in 1..(Len(ax) - 1) :
                  /\ ax[i] <= x
                  /\ x <= ax[i + 1]
                  /\ \A j \in 1..(i - 1) : ~(ax[j] <= x /\ x <= ax[j + 1])
Bilinear64(g, x, y) ==
  LET i == Below(g.ax, x)
      j == Below(g.ay, y)
      gx == g.ax[i + 1] - g.ax[i]
      gy == g.ay[j + 1] - g.ay[j]
      v == g.z[j][i] * (g.ax[i + 1] - x) * (g.ay[j + 1] - y)
           + g.z[j][i + 1] * (x - g.ax[i]) * (g.ay[j + 1] - y)
           + g.z[j + 1][i] * (g.ax[i + 1] - x) * (y - g.ay[j])
           + g.z[j + 1][i + 1] * (x - g.ax[i]) * (y - g.ay[j])
  IN v * (64 \div (gx * gy))

Monomial(code, v) == CASE code = "x"  -> v[1]
                       [] code = "y"  -> v[2]
                       [] code = "z"  -> v[3]
                       [] code = "xy" -> v[1] * v[2]
                       [] code = "xx" -> v[1] * v[1]
                       [] code = "yy" -> v[2] * v[2]
                         [] code = "yz" -> v[2] * v[3]

(* drift row at position q; sv: the specified drift values belonging to q   *)
DriftRow(sc, q, sv) ==
  (IF sc.drift.lin THEN q ELSE <<>>)
  \o (IF sc.drift.ext THEN << Bilinear64(sc.grid, q[1], q[2]) >> ELSE <<>>)
  \o sv
  \o [i \in 1..Len(sc.drift.fun) |-> Monomial(sc.drift.fun[i], Adjusted(sc.fr, sc.pts, q))]

(* ------------------------------ the system ------------------------------ *)
(* idx: the data used; Q: sequence of [q, sv]                               *)
DataRow(sc, i) == DriftRow(sc, sc.pts[i], IF sc.drift.spec = 0 THEN <<>>
                                           ELSE [t \in 1..sc.drift.spec |-> sc.sdat[t][i]])

RhsGamma(sc, i, q) ==
  LET D == Dq(sc, sc.pts[i], q)
  IN IF D = 0 THEN (IF sc.exact THEN 0 ELSE -(sc.nug * GScale(sc)))
     ELSE -Gamma(sc, D)

IntMatrix(sc, idx, Q) ==
  LET n == Len(idx)
      rows == TLCEval([i \in 1..n |-> DataRow(sc, idx[i])])
      p == Len(rows[1])
      qrows == TLCEval([k \in 1..Len(Q) |-> DriftRow(sc, Q[k].q, Q[k].sv)])
      m == n + p + 1
      cell(r, c) ==
        IF c <= m
          THEN IF r <= n /\ c <= n
                 THEN IF r = c THEN 0
                      ELSE LET D == Dq(sc, sc.pts[idx[r]], sc.pts[idx[c]])
                           IN IF D = 0 THEN -(sc.nug * GScale(sc)) ELSE -Gamma(sc, D)
               ELSE IF r > n /\ c > n THEN 0
               ELSE LET i == Min(r, c)
                        t == Max(r, c) - n
                    IN IF t = p + 1 THEN 1 ELSE rows[i][t]
          ELSE LET k == c - m
               IN IF r <= n THEN RhsGamma(sc, idx[r], Q[k].q)
                  ELSE IF r = m THEN 1 ELSE qrows[k][r - n]
  IN [n |-> n, p |-> p, m |-> m, w |-> m + Len(Q),
      M |-> TLCEval([r \in 1..m |-> [c \in 1..(m + Len(Q)) |-> cell(r, c)]])]

(* solution modulo one prime: determinant, and for every request point the  *)
(* weights, estimate*det and variance*det                                   *)
SolveMod(sc, idx, S, p, oblige) ==
  LET R == Solve(S.M, S.m, S.w, p) IN
  IF R.det = 0 THEN [det |-> 0, z |-> <<>>, s |-> <<>>, ok |-> TRUE]
  ELSE
    LET nq == S.w - S.m
        wt(k, i) == R.M[i][S.m + k]
        z == [k \in 1..nq |->
               SumMod([i \in 1..S.n |-> wt(k, i) * (sc.zs[idx[i]] % p)], 1, S.n, p)]
        s == [k \in 1..nq |->
               (p - SumMod([i \in 1..S.m |-> wt(k, i) * (S.M[i][S.m + k] % p)], 1, S.m, p)) % p]
        (* the model's own obligations *)
        unbiased == \A k \in 1..nq :
               SumMod([i \in 1..S.n |-> wt(k, i)], 1, S.n, p) = 1
        drifts == \A k \in 1..nq, t \in 1..S.p :
               SumMod([i \in 1..S.n |-> wt(k, i) * (S.M[i][S.n + t] % p)], 1, S.n, p)
                 = S.M[S.n + t][S.m + k] % p
        hits(k) == {i \in 1..S.n : \A r \in 1..S.m : S.M[r][S.m + k] = S.M[r][i]}
        exactness == \A k \in 1..nq : \A i \in hits(k) :
               /\ \A j \in 1..S.n : wt(k, j) = (IF i = j THEN 1 ELSE 0)
               /\ z[k] = sc.zs[idx[i]] % p
               /\ s[k] = 0
    IN [det |-> R.det,
        z |-> [k \in 1..nq |-> (z[k] * R.det) % p],
        s |-> [k \in 1..nq |-> (s[k] * R.det) % p],
        ok |-> oblige => (unbiased /\ drifts /\ exactness)]

(* enough primes for determinant, estimate*det and variance*det: Hadamard's *)
(* bound of the bordered system                                             *)
RowBits(S, r) == Log2(Max(1, SumInt([c \in 1..S.w |-> Abs(S.M[r][c])], 1, S.w)))
NumPrimes(sc, S) ==
  LET bits == SumInt([r \in 1..S.m |-> RowBits(S, r)], 1, S.m) + 36
  IN Min(Len(Primes), (bits \div 15) + 2)

Exact(sc, idx, Q) ==
  LET S == IntMatrix(sc, idx, Q)
      np == NumPrimes(sc, S)
      r == TLCEval([k \in 1..np |-> SolveMod(sc, idx, S, Primes[k], k = 1)])
  IN [det |-> [k \in 1..np |-> r[k].det],
      z |-> [k \in 1..np |-> r[k].z],
      s |-> [k \in 1..np |-> r[k].s],
      A |-> [i \in 1..S.m |-> SubSeq(S.M[i], 1, S.m)],
      ok |-> \A k \in 1..np : r[k].ok]

(* --------------------------- moving window ------------------------------ *)
(* the k data nearest to q in the distance of the object, in data order;    *)
(* tie: the window edge does not separate (the answer is then open)         *)
Window(sc, q, k) ==
  LET n == Len(sc.pts)
      d == TLCEval([i \in 1..n |-> Dq(sc, sc.pts[i], q)])
      rank(i) == Cardinality({j \in 1..n : d[j] < d[i] \/ (d[j] = d[i] /\ j < i)})
      in == {i \in 1..n : rank(i) < k}
  IN [idx |-> SetToSortSeq(in, LAMBDA a, b : a < b),
      tie |-> \E i \in in, j \in (1..n) \ in : d[i] = d[j]]
=============================================================================
