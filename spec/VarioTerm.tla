----------------------------- MODULE VarioTerm ------------------------------
(* The built-in variogram models as exact terms.                             *)
(*                                                                           *)
(* A value of a model is   const + ecoef * exp(-earg) + pcoef * d^pexp       *)
(* with rational parts.  Distances are multiples j/8 of the range (of one    *)
(* unit of length for the models without range); the state is one model with *)
(* its parameters and the distance grows step by step, so that monotonicity  *)
(* is an action property.  Every term is printed for the conformance check.  *)
EXTENDS Integers, Sequences, TLC, Json

Kinds == {"linear", "power", "gaussian", "exponential", "spherical", "hole-effect"}
Sills == {0, 1, 7, 40}          \* partial sill, slope or scale
Nuggets == {0, 2, 13}
Exponents == {2, 5, 10, 15, 19, 20}   \* tenths
Steps == (0..10) \cup {12, 15, 16, 20, 24, 33, 80, 400}

VARIABLES kind, a, n, e, j
vars == << kind, a, n, e, j >>

(* rationals are << numerator, denominator >> with positive denominator *)
Zero == << 0, 1 >>
Whole(x) == << x, 1 >>
Leq(p, q) == IF p[2] = q[2] THEN p[1] <= q[1] ELSE p[1] * q[2] <= q[1] * p[2]
Equal(p, q) == p[1] * q[2] = q[1] * p[2]
Plus(p, q) == << p[1] * q[2] + q[1] * p[2], p[2] * q[2] >>

NoExp == [ecoef |-> Zero, earg |-> Zero]
NoPow == [pcoef |-> Zero, pbase |-> Zero, pexp |-> 10]

(* d = j/8 range lengths *)
Term(k, A, N, E, J) ==
  CASE k = "linear"      -> [const |-> << 8 * N + A * J, 8 >>, ecoef |-> Zero, earg |-> Zero, pcoef |-> Zero, pbase |-> Zero, pexp |-> 10]
    [] k = "power"       -> [const |-> Whole(N), ecoef |-> Zero, earg |-> Zero,
                             pcoef |-> IF J = 0 THEN Zero ELSE Whole(A), pbase |-> << J, 8 >>, pexp |-> E]
    [] k = "gaussian"    -> [const |-> Whole(N + A), ecoef |-> Whole(-A), earg |-> << 49 * J * J, 1024 >>,
                             pcoef |-> Zero, pbase |-> Zero, pexp |-> 10]
    [] k = "exponential" -> [const |-> Whole(N + A), ecoef |-> Whole(-A), earg |-> << 3 * J, 8 >>,
                             pcoef |-> Zero, pbase |-> Zero, pexp |-> 10]
    [] k = "hole-effect" -> [const |-> Whole(N + A), ecoef |-> << A * (3 * J - 8), 8 >>, earg |-> << 3 * J, 8 >>,
                             pcoef |-> Zero, pbase |-> Zero, pexp |-> 10]
    [] OTHER             -> [const |-> IF J < 8 THEN << 1024 * N + A * (192 * J - J * J * J), 1024 >> ELSE Whole(N + A),
                             ecoef |-> Zero, earg |-> Zero, pcoef |-> Zero, pbase |-> Zero, pexp |-> 10]
T == Term(kind, a, n, e, j)

Init == /\ kind \in Kinds
        /\ a \in Sills
        /\ n \in Nuggets
        /\ e \in (IF kind = "power" THEN Exponents ELSE {10})
        /\ j = 0
NextStep(x) == CHOOSE y \in Steps : y > x /\ \A z \in Steps : z > x => y <= z
Further == /\ j < 400
           /\ j' = NextStep(j)
           /\ UNCHANGED << kind, a, n, e >>
Next == Further
Spec == Init /\ [][Next]_vars

(* ------------------------------ obligations ------------------------------ *)
(* exp(0) = 1 and 0^e = 0: the nugget at zero distance *)
NuggetAtZero == j = 0 => Equal(Plus(T.const, T.ecoef), Whole(n)) /\ T.pcoef = Zero
(* from the range on the spherical model is at its plateau *)
Plateau == kind = "spherical" /\ j >= 8 => Equal(T.const, Whole(n + a)) /\ T.ecoef = Zero
(* both pieces of the spherical model meet at the range *)
Continuous == 1024 * n + a * (192 * 8 - 8 * 8 * 8) = 1024 * (n + a)
(* the exponential model is within 5% (e^-3) of its plateau at the range     *)
NinetyFive == kind = "exponential" /\ j = 8 => Equal(T.earg, Whole(3)) /\ Equal(T.ecoef, Whole(-a)) /\ Equal(T.const, Whole(n + a))
(* plateau models approach nugget plus partial sill *)
Approach == kind \in {"gaussian", "exponential", "hole-effect"} => Equal(T.const, Whole(n + a))
(* growth never decreases, except for the hole effect: the rational part     *)
(* grows, the coefficient of the exponential is not positive and its         *)
(* argument grows, the power has a non-negative coefficient and grows        *)
Grows == kind # "hole-effect" =>
           /\ Leq(T.const, T'.const)
           /\ T'.ecoef[1] <= 0 /\ Equal(T.ecoef, T'.ecoef) /\ Leq(T.earg, T'.earg)
           /\ T'.pcoef[1] >= 0 /\ Leq(T.pcoef, T'.pcoef) /\ Leq(T.pbase, T'.pbase)
Monotone == [][Grows]_vars

Emit == PrintT("@@" \o ToJson([kind |-> kind, a |-> a, n |-> n, e |-> e, j |-> j, term |-> T]))
=============================================================================
