----------------------------- MODULE Composition ----------------------------
(* Compositions with parts that are powers of two, in exact arithmetic, and  *)
(* classification kriging on them.                                           *)
(*                                                                           *)
(* A composition is its vector k of exponents: part i is 2^k[i] / sum 2^k.   *)
(* Shifting all exponents gives the same composition.  The isometric log     *)
(* ratio keeps the Aitchison distance, in units of (ln 2)^2:                 *)
(*     n * |ilr(u) - ilr(v)|^2 = n * sum d^2 - (sum d)^2,   d = u - v,       *)
(* turns products of parts into sums, and undoes its inverse.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS Mode,   \* "enumerate" | "judge"
          Top,    \* exponents 0..Top
          Parts,  \* up to so many parts
          File

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Dist2(d) == Len(d) * Sum([i \in DOMAIN d |-> d[i] * d[i]]) - Sum(d) * Sum(d)
Minus(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
Plus(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
Shift(u, c) == [i \in DOMAIN u |-> u[i] + c]

(* what a zero part counts as: 2^-52 *)
Floor == -52
OneHot(n, c) == [i \in 1..n |-> IF i = c THEN 0 ELSE Floor]

(* ------------------------------ enumeration ------------------------------ *)
VARIABLES u, v, st
Vectors(n) == [1..n -> 0..Top]
InitE == \E n \in 2..Parts : u \in Vectors(n) /\ v = u /\ st = 0
(* visit a neighbourhood of u and far partners *)
Partners == {[u EXCEPT ![i] = j] : i \in DOMAIN u, j \in 0..Top} \cup {Reverse(u)} \cup {OneHot(Len(u), i) : i \in DOMAIN u}
NextE == /\ st = 0
         /\ v' \in Partners
         /\ st' = 1
         /\ UNCHANGED u
         /\ PrintT("@@" \o ToJson([u |-> u, v |-> v', d2 |-> Dist2(Minus(u, v')), sum |-> Plus(u, v')]))

(* the distance is a distance of compositions, not of exponent vectors       *)
Sound == /\ Dist2(Minus(u, v)) >= 0
         /\ (Dist2(Minus(u, v)) = 0 <=> \E c \in -100..100 : Shift(u, c) = v)
         /\ Dist2(Minus(Shift(u, 3), v)) = Dist2(Minus(u, v))
         /\ Dist2(Minus(v, u)) = Dist2(Minus(u, v))

(* ------------------------- classification kriging ------------------------ *)
(* An object is fitted with probabilities 2^lp (up to closure) and classes y *)
(* of the samples; per class the exponents of (label / probability) are      *)
(* kriged.  At a position with probabilities 2^lq the label is the class     *)
(* with the largest kriged exponent plus lq.  Numbers in millionths.         *)
Trace == IF Mode = "judge" THEN JsonDeserialize(File) ELSE << >>
Abs(a) == IF a < 0 THEN -a ELSE a
Residual(f, i) == Minus(OneHot(f.K, f.y[i]), f.lp[i])
Kriged(f, ev, t) ==
  IF ev.at[t] # 0 /\ f.exact THEN [c \in 1..f.K |-> 1000000 * Residual(f, ev.at[t])[c]] ELSE ev.S[t]
Score(f, ev, t) == [c \in 1..f.K |-> Kriged(f, ev, t)[c] + 1000000 * ev.lq[t][c]]
Best(f, ev, t) == LET s == TLCEval(Score(f, ev, t))
                      m == CHOOSE x \in {s[c] : c \in 1..f.K} : \A c \in 1..f.K : s[c] <= x
                  IN {c \in 1..f.K : s[c] >= m - 200}

Fails(f, ev) ==
  CASE ev.op = "fit" -> IF ev.err # "" THEN <<"fits inside the documented domain succeed">> ELSE <<>>
    [] ev.op = "bad" -> IF ev.err = "" THEN <<"calls outside the documented domain are refused">> ELSE <<>>
    [] ev.err # "" -> <<"a request inside the documented domain is answered">>
    [] ev.op = "pred" ->
         IF Len(ev.label) # Len(ev.lq) THEN <<"one label per position">>
         ELSE IF \E t \in DOMAIN ev.label : ev.label[t] \notin 1..f.K THEN <<"predictions are labels of the training data">>
         ELSE IF \E t \in DOMAIN ev.label : ev.label[t] \notin Best(f, ev, t) THEN <<"the label has the largest probability plus residual">>
         ELSE <<>>
    [] ev.op = "resid" ->
         IF \E t \in DOMAIN ev.L : \E c \in 1..f.K :
               Abs(ev.L[t][c] - (Kriged(f, ev, t)[c] - Kriged(f, ev, t)[1])) > 200
           THEN <<"the residuals are the kriged log ratios of labels and probabilities">> ELSE <<>>
    [] ev.op = "train" -> IF ev.label # ev.want THEN <<"training samples get their labels back">> ELSE <<>>
    [] ev.op = "score" ->
         IF ev.hits # Cardinality({t \in DOMAIN ev.label : ev.label[t] = ev.y[t]})
           THEN <<"the score is the share of right labels">> ELSE <<>>
    [] OTHER -> <<"MACHINERY">>

(* u: episode, v: position in it, st: the fitted state of each object        *)
InitJ == u \in 1..Len(Trace) /\ v = 1 /\ st = << >>
NextJ == LET E == Trace[u]
             ev == E[v]
             known == ev.op \in {"fit", "bad", "train", "score"} \/ ev.o \in DOMAIN st
             f == IF ev.op = "fit" THEN ev ELSE IF ev.o \in DOMAIN st THEN st[ev.o] ELSE ev
             r == IF known THEN TLCEval(Fails(f, ev)) ELSE <<>>
         IN /\ v <= Len(E)
            /\ (r # <<>> => PrintT("@@" \o ToJson([ep |-> u, l |-> v, fails |-> r])))
            /\ (v = Len(E) => PrintT("@@" \o ToJson([ep |-> u, done |-> v])))
            /\ st' = IF ev.op = "fit" /\ ev.err = "" THEN (ev.o :> ev) @@ st ELSE st
            /\ v' = v + 1
            /\ UNCHANGED u

Init == IF Mode = "enumerate" THEN InitE ELSE InitJ
Next == IF Mode = "enumerate" THEN NextE ELSE NextJ
Spec == Init /\ [][Next]_<< u, v, st >>
=============================================================================
