------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond 32 bits: little-endian digits to the base 10000.   *)
EXTENDS Integers, Sequences

Base == 10000
RECURSIVE Digits(_)
Digits(x) == IF x < Base THEN << x >> ELSE << x % Base >> \o Digits(x \div Base)

RECURSIVE Carry(_, _, _)
Carry(s, i, c) == \* s[i..] with carry c
  IF i > Len(s) THEN (IF c = 0 THEN <<>> ELSE Digits(c))
  ELSE LET v == s[i] + c IN << v % Base >> \o Carry(s, i + 1, v \div Base)

RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > k THEN 0 ELSE At(a, i) * At(b, k + 1 - i) + Conv(a, b, k, i + 1)
BigMul(a, b) == Strip(Carry([k \in 1..(Len(a) + Len(b)) |-> Conv(a, b, k, 1)], 1, 0))
BigAdd(a, b) == Strip(Carry([k \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> At(a, k) + At(b, k)], 1, 0))

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                    ELSE CmpFrom(a, b, i - 1)
(* -1, 0 or 1 *)
BigCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
=============================================================================
