------------------------------ MODULE FitTrace ------------------------------
(* Judges recorded automatic variogram fits.                                 *)
(*                                                                           *)
(* A record is one experimental variogram with the parameters the code       *)
(* fitted to it and with competitors: the documented starting guess and      *)
(* small changes of the fitted parameters.  Numbers are integers in          *)
(* millionths of the units of the record (weights in ten-thousandths): the   *)
(* objective is not independent of the unit of the semivariance, `one` is    *)
(* the number one in it (a power of ten, 10^6 where that unit is one).  For  *)
(* every competitor the recorder gives the values of the model at the lags,  *)
(* and integer square roots for the robust objective, which are checked here.*)
(* Where the unit is below a thousandth (one = 0) the robust objective is    *)
(* the sum of squares to within a part in ten thousand: no roots are needed. *)
EXTENDS BigNat, TLC, Json

CONSTANT File
Trace == JsonDeserialize(File)

VARIABLES r, c, costs, best
vars == << r, c, costs, best >>

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE MaxOf(_, _)
MaxOf(s, i) == IF i = 1 THEN s[1] ELSE LET m == MaxOf(s, i - 1) IN IF s[i] > m THEN s[i] ELSE m
RECURSIVE MinOf(_, _)
MinOf(s, i) == IF i = 1 THEN s[1] ELSE LET m == MinOf(s, i - 1) IN IF s[i] < m THEN s[i] ELSE m
TopY(e) == MaxOf(e.y, Len(e.y))
LowY(e) == MinOf(e.y, Len(e.y))
TopX(e) == MaxOf(e.x, Len(e.x))
LowX(e) == MinOf(e.x, Len(e.x))

One == 1000000
(* rounding of the records *)
Slack(v) == 3 + (v \div 100000000)

(* ----------------------------- admissibility ----------------------------- *)
Admissible(e, p) ==
  /\ \A i \in DOMAIN p : p[i] >= 0
  /\ CASE e.kind = "linear" -> p[2] <= TopY(e) + Slack(TopY(e))
       [] e.kind = "power"  -> /\ p[2] > 0 /\ p[2] < 2 * One
                               /\ p[3] <= TopY(e) + Slack(TopY(e))
       [] OTHER             -> /\ p[1] <= 10 * TopY(e) + Slack(10 * TopY(e))
                               /\ p[2] <= TopX(e) + Slack(TopX(e))
                               /\ p[3] <= TopY(e) + Slack(TopY(e))

(* --------------------------- the starting guess -------------------------- *)
(* slope * (largest lag - smallest lag) = largest - smallest semivariance    *)
SlopeOf(e, a) ==
  LET dx == TopX(e) - LowX(e)
      dy == TopY(e) - LowY(e)
      low == IF a > 2 + (a \div 20000) THEN a - 2 - (a \div 20000) ELSE 0
      lhs(s) == BigMul(Digits(s), Digits(dx))
      rhs(t) == BigMul(Digits(t), Digits(One))
  IN BigCmp(lhs(low), rhs(dy + 2)) <= 0 /\ BigCmp(lhs(a + 2 + (a \div 20000)), rhs(IF dy > 2 THEN dy - 2 ELSE 0)) >= 0
IsStart(e, p) ==
  CASE e.kind = "linear" -> SlopeOf(e, p[1]) /\ Abs(p[2] - LowY(e)) <= 2
    [] e.kind = "power"  -> SlopeOf(e, p[1]) /\ p[2] = 1100000 /\ Abs(p[3] - LowY(e)) <= 2
    [] OTHER             -> /\ Abs(p[1] - (TopY(e) - LowY(e))) <= 2
                            /\ Abs(4 * p[2] - TopX(e)) <= 8
                            /\ Abs(p[3] - LowY(e)) <= 2

(* ----------------------------- the objective ----------------------------- *)
(* residual, short lags counting more if asked for *)
Weighted(e, i, d) ==
  IF ~e.weight THEN d
  ELSE LET a == Abs(d)
           v == (((a \div 1000) * e.wt[i]) \div 10) + (((a % 1000) * e.wt[i]) \div 10000)
       IN IF d < 0 THEN -v ELSE v
RECURSIVE SumS(_, _)
SumS(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumS(s, i - 1)
(* weights: normalized, falling with the lag, half way at 70% of the lags    *)
WeightsRight(e) ==
  ~e.weight \/
  /\ Abs(SumS(e.wt, Len(e.wt)) - 10000) <= Len(e.wt)
  /\ \A i \in 1..(Len(e.wt) - 1) : e.wt[i + 1] <= e.wt[i]

(* s is the integer square root of one^2 + d^2 *)
Root(one, d, s) ==
  LET v == BigAdd(BigMul(Digits(one), Digits(one)), BigMul(Digits(Abs(d)), Digits(Abs(d))))
  IN /\ BigCmp(BigMul(Digits(s), Digits(s)), v) <= 0
     /\ BigCmp(BigMul(Digits(s + 1), Digits(s + 1)), v) > 0
Certified(e, k) == e.one = 0 \/ \A i \in DOMAIN e.y : Root(e.one, Weighted(e, i, k.m[i] - e.y[i]), k.s[i])
(* sum of 2 (sqrt(1 + d^2) - 1), halved: the soft L1 norm                    *)
RECURSIVE Squares(_, _, _)
Squares(e, k, i) ==
  IF i = 0 THEN << 0 >>
  ELSE LET d == Digits(Abs(Weighted(e, i, k.m[i] - e.y[i]))) IN BigAdd(BigMul(d, d), Squares(e, k, i - 1))
Cost(e, k) == IF e.one = 0 THEN Squares(e, k, Len(e.y))
              ELSE Digits(SumS([i \in DOMAIN k.s |-> k.s[i] - e.one], Len(k.s)))

(* ------------------------------ the verdict ------------------------------ *)
(* near: every parameter changes by at most a tenth of its size or a         *)
(* hundredth of its scale                                                    *)
ScaleOf(e, i) == CASE e.kind = "linear" /\ i = 2 -> TopY(e)
                   [] e.kind = "power" /\ i = 3 -> TopY(e)
                   [] e.kind = "power" /\ i = 2 -> One
                   [] e.kind \in {"linear", "power"} -> 0
                   [] i = 2 -> TopX(e)
                   [] OTHER -> TopY(e)
Near(e, p, q) == \A i \in DOMAIN p : Abs(p[i] - q[i]) <= 3 + (p[i] \div 10) + (ScaleOf(e, i) \div 100)

(* ridge: another exponent, and the scale by which one of the values stays    *)
Ridge(e, fit, k) == /\ e.kind = "power"
                    /\ Abs(fit.p[2] - k.p[2]) <= (One \div 10) + 3
                    /\ Abs(fit.p[3] - k.p[3]) <= 3
                    /\ \E i \in DOMAIN k.m : Abs(fit.m[i] - k.m[i]) <= 3 + (fit.m[i] \div 100000)

Competes(e, k) == CASE k.role = "fit"   -> k.p = e.p
                    [] k.role = "start" -> IsStart(e, k.p)
                    [] k.role = "ridge" -> Admissible(e, k.p) /\ Ridge(e, e.cands[1], k)
                    [] OTHER            -> Admissible(e, k.p) /\ Near(e, e.p, k.p)
(* by more than a hundredth and the rounding of the record *)
Grain(e) == IF e.one = 0 THEN BigMul(Digits(1000000), Digits(100 * Len(e.y))) ELSE Digits(100 + Len(e.y))
Beaten(e, fit, other) ==
  BigCmp(BigMul(Digits(100), fit), BigAdd(BigMul(Digits(101), other), BigMul(Digits(100), Grain(e)))) > 0

Same(p, q) == \A i \in DOMAIN p : Abs(p[i] - q[i]) <= 3 + (p[i] \div 100000)
Fails(e) ==
  (IF ~Admissible(e, e.p) THEN << "the fitted parameters are admissible" >> ELSE <<>>)
  \o (IF \E i \in DOMAIN e.runs : ~Same(e.p, e.runs[i]) THEN << "the fit depends on data and settings only" >> ELSE <<>>)

Init == r = 1 /\ c = 0 /\ costs = <<>> /\ best = <<>>
E == Trace[r]
Out(x) == PrintT("@@" \o ToJson(x))
Begin == /\ r <= Len(Trace) /\ c = 0
         /\ Fails(E) # <<>> => Out([id |-> E.id, fails |-> Fails(E)])
         /\ ~WeightsRight(E) => Out([id |-> E.id, machinery |-> "weights"])
         /\ c' = 1 /\ costs' = <<>> /\ best' = <<>> /\ r' = r
Weigh == /\ r <= Len(Trace) /\ c \in 1..Len(E.cands)
         /\ LET k == E.cands[c]
                v == Cost(E, k)
            IN /\ ~(Competes(E, k) /\ Certified(E, k)) => Out([id |-> E.id, machinery |-> k])
               /\ k.role # "fit" /\ Beaten(E, costs[1], v) =>
                    Out([id |-> E.id, fails |-> << IF k.role = "start" THEN "the fit is at least as good as the starting guess"
                                                   ELSE "the fit is at least as good as small changes of it" >>,
                         by |-> k.p, costs |-> << costs[1], v >>])
               /\ costs' = Append(costs, v)
         /\ c' = c + 1 /\ UNCHANGED << r, best >>
Finish == /\ r <= Len(Trace) /\ c > Len(E.cands)
          /\ Out([id |-> E.id, done |-> Len(E.cands)])
          /\ r' = r + 1 /\ c' = 0 /\ costs' = <<>> /\ best' = <<>>
Next == Begin \/ Weigh \/ Finish
Spec == Init /\ [][Next]_vars
View == << r, c >>
=============================================================================
