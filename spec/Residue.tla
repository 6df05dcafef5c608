------------------------------ MODULE Residue ------------------------------
(* Exact rational linear algebra in a residue number system.                *)
(* TLC's integers have 32 bits, the determinants of kriging systems do not  *)
(* fit.  Every number is therefore carried by its residues modulo Primes;   *)
(* products of two residues stay below 2^31.  The conformance harness puts  *)
(* the residues together again (Chinese remainder theorem).                 *)
EXTENDS Integers, Sequences, TLC

Primes == << 46337, 46327, 46309, 46307, 46301, 46279,
             46273, 46271, 46261, 46237, 46229, 46219 >>

RECURSIVE Pow(_, _, _)
Pow(a, e, p) ==
  IF e = 0 THEN 1
  ELSE LET h == Pow(a, e \div 2, p)
           q == (h * h) % p
       IN IF e % 2 = 1 THEN (q * a) % p ELSE q

Inv(a, p) == Pow(a % p, p - 2, p)

(* Gauss-Jordan elimination of the m x w matrix M (m <= w) modulo p.        *)
(* Result: det of the leading m x m block, and the reduced matrix, whose    *)
(* columns m+1 .. w are the solutions for the appended right-hand sides.    *)
(* Columns up to k are finished after step k and dropped.                   *)
RECURSIVE Reduce(_, _, _, _, _, _)
Reduce(M, k, m, w, p, det) ==
  IF k > m THEN [M |-> M, det |-> det]
  ELSE
    LET c == {r \in k..m : M[r][k] # 0} IN
    IF c = {} THEN [M |-> M, det |-> 0]
    ELSE
      LET pv == CHOOSE r \in c : \A q \in c : r <= q
          iv == Inv(M[pv][k], p)
          rk == TLCEval([j \in (k + 1)..w |-> (M[pv][j] * iv) % p])
          N  == TLCEval([r \in 1..m |->
                  IF r = k THEN rk
                  ELSE LET s == IF r = pv THEN k ELSE r
                           f == M[s][k]
                       IN IF f = 0 THEN M[s]
                          ELSE [j \in (k + 1)..w |-> (M[s][j] + (p - f) * rk[j]) % p]])
          d1 == (det * M[pv][k]) % p
      IN Reduce(N, k + 1, m, w, p, IF pv = k THEN d1 ELSE (p - d1) % p)

Solve(M, m, w, p) == Reduce(TLCEval([r \in 1..m |-> [j \in 1..w |-> M[r][j] % p]]), 1, m, w, p, 1)

RECURSIVE SumMod(_, _, _, _)
SumMod(f, i, n, p) == IF i > n THEN 0 ELSE ((f[i] % p) + SumMod(f, i + 1, n, p)) % p

RECURSIVE SumInt(_, _, _)
SumInt(f, i, n) == IF i > n THEN 0 ELSE f[i] + SumInt(f, i + 1, n)

(* integer square root (floor) *)
RECURSIVE SqrtStep(_, _)
SqrtStep(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE SqrtStep(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE SqrtStep(n, n \div 2 + 1)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 1 ELSE 1 + Log2(n \div 2)      \* at least the bits of n

Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
