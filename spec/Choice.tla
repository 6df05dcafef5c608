------------------------------- MODULE Choice -------------------------------
(* Deterministic pseudo-random choices: R(k, salt, n) is in 0..n-1.          *)
EXTENDS Integers, Sequences, TLC
CONSTANT Seed

Mix(a, b) == LET x == TLCEval((a * 4637 + b * 911 + 17) % 46337)
                 y == TLCEval((((x * x) % 46337) + x * 29 + b * 7 + 1) % 46337)
             IN TLCEval((((y * y) % 46309) + y * 31 + a) % 46337)
H(k, salt) == LET a == TLCEval(Mix(((Seed % 9973) * 37 + 11) % 46337, k % 40009))
                  b == TLCEval(Mix(a, salt))
              IN TLCEval(Mix(b, k \div 40009 + salt))
R(k, salt, n) == (H(k, salt) \div 5) % n
Pick(k, salt, s) == s[R(k, salt, Len(s)) + 1]
Chance(k, salt, pct) == R(k, salt, 100) < pct
=============================================================================
