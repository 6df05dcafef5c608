----------------------------- MODULE Lifecycle -----------------------------
(* The life of kriging objects: construction, update_variogram_model,       *)
(* requests, reports, rejected calls, calls broken off by an exception of a *)
(* user-supplied function, copies, and callers scribbling over arrays.      *)
(*                                                                          *)
(* An object keeps, besides the settings last accepted (cfg), several       *)
(* things derived from them: the adjusted data coordinates, the adjusted    *)
(* positions of logarithmic wells, the experimental variogram, the fitted   *)
(* parameters and the statistics.  update_variogram_model recomputes only   *)
(* what it considers changed, so the obligation is                          *)
(*    NoHistory: what is in force is what a fresh object would derive       *)
(* for every reachable state, and                                           *)
(*    AnswersOwn: a request is answered from the object's own state,         *)
(* whatever other objects of the same process were asked before (memo: what  *)
(* an implementation could share between objects).  Faults names deliberate mistakes; with any   *)
(* of them TLC must find a violation (negative controls).                   *)
(*                                                                          *)
(* Mode "check": all behaviours.  Mode "emit": walks Lo..Hi, one behaviour  *)
(* each, printed for replay on the real classes.                            *)
EXTENDS Choice, FiniteSets, Json
CONSTANTS Mode, Dim, Mods, Vals, Objects, Faults, Lo, Hi, Steps, Focus

VARIABLES obj,    \* object -> state, for the objects that exist
          memo,   \* what was computed last, by any object
          no, t,  \* emit: number of the walk, step
          log     \* emit: what was done
vars == << obj, memo, no, t, log >>

(* ------------------------------- settings -------------------------------- *)
(* v: variogram (1..Mods): 1, 2 given, same model; 3 given, other model;     *)
(*    4, 5 fitted (with different classes); 6, 7 user-supplied functions,    *)
(*    both called "custom" and with equal parameters                         *)
(* a: anisotropy components, 0 is the default                                *)
Ani == [1..Dim -> 0..Vals]
Cfgs == [v : 1..Mods, a : Ani]
Fitted(v) == v \in {4, 5}
Classes(v) == IF v = 5 THEN 2 ELSE 1

(* ------------------------------- deriving -------------------------------- *)
Exper(v, adj) == << Classes(v), adj >>
Params(v, ex) == IF Fitted(v) THEN << v, ex >> ELSE << v >>
Statist(par, adj) == << par, adj >>
Derive(c) == LET ex == Exper(c.v, c.a)
                 par == Params(c.v, ex)
             IN [cfg |-> c, adj |-> c.a, wells |-> c.a, ex |-> ex, par |-> par, stat |-> Statist(par, c.a), ans |-> << >>]

(* what an answer is computed from; and what tells it from other answers in  *)
(* the eyes of an implementation that overlooks which function is meant      *)
Val(s) == << s.cfg.v, s.par, s.adj, s.wells >>
Key(s) == << IF s.cfg.v = 7 THEN 6 ELSE s.cfg.v, s.adj >>
Answer(s) == IF "shared" \in Faults /\ memo # << >> /\ memo[1] = Key(s) THEN memo[2] ELSE Val(s)

(* what the implementation does on an update of s to c                       *)
Changed(s, c) == {i \in DOMAIN c.a : c.a[i] # s.cfg.a[i]}
Noticed(s, c) == Changed(s, c) \ (IF "guard" \in Faults THEN {Len(c.a)} ELSE {})
Updated(s, c) ==
  LET re  == Noticed(s, c) # {}
      adj == IF re THEN c.a ELSE s.adj
      wl  == IF re /\ "wells" \notin Faults THEN c.a ELSE s.wells
      ex  == IF "lags" \in Faults /\ ~re THEN s.ex
             ELSE Exper(c.v, IF "order" \in Faults THEN s.adj ELSE adj)
      par == IF "refit" \in Faults /\ Fitted(c.v) /\ c.v = s.cfg.v THEN s.par ELSE Params(c.v, ex)
      st  == IF "stat" \in Faults /\ par = s.par THEN s.stat ELSE Statist(par, adj)
  IN [cfg |-> c, adj |-> adj, wells |-> wl, ex |-> ex, par |-> par, stat |-> st, ans |-> << >>]

(* what it does on an update to c that is rejected, or broken off after      *)
(* some of the work: nothing                                                 *)
Rejected(s, c) == IF "early" \in Faults THEN [s EXCEPT !.cfg = [@ EXCEPT !.a = c.a]]
                  ELSE IF "halfway" \in Faults THEN [Updated(s, c) EXCEPT !.stat = s.stat, !.cfg = s.cfg]
                  ELSE s

(* ------------------------------- checking -------------------------------- *)
New(o) == o \notin DOMAIN obj /\ \E c \in Cfgs : obj' = (o :> Derive(c)) @@ obj /\ UNCHANGED memo
Upd(o) == o \in DOMAIN obj /\ \E c \in Cfgs : obj' = [obj EXCEPT ![o] = Updated(@, c)] /\ UNCHANGED memo
Rej(o) == o \in DOMAIN obj /\ \E c \in Cfgs : obj' = [obj EXCEPT ![o] = Rejected(@, c)] /\ UNCHANGED memo
Cpy(o) == o \in DOMAIN obj /\ \E p \in 1..Objects \ DOMAIN obj : obj' = (p :> obj[o]) @@ obj /\ UNCHANGED memo
Ask(o) == o \in DOMAIN obj /\ obj' = [obj EXCEPT ![o].ans = Answer(obj[o])]
          /\ memo' = IF "shared" \in Faults THEN << Key(obj[o]), Answer(obj[o]) >> ELSE memo
InitC == obj = << >> /\ memo = << >> /\ no = 0 /\ t = 0 /\ log = << >>
NextC == (\E o \in 1..Objects : New(o) \/ Upd(o) \/ Rej(o) \/ Cpy(o) \/ Ask(o)) /\ UNCHANGED << no, t, log >>

NoHistory == \A o \in DOMAIN obj : [obj[o] EXCEPT !.ans = << >>] = Derive(obj[o].cfg)
AnswersOwn == \A o \in DOMAIN obj : obj[o].ans \in {<< >>, Val(Derive(obj[o].cfg))}

(* -------------------------------- walks ---------------------------------- *)
Cls(k) == Pick(k, 1, << "ok", "ok", "geo", "uk", "uk", "uk", "ok3d", "uk3d", "uk3d" >>)
DimOf(c) == CASE c = "geo" -> 0 [] c \in {"ok", "uk"} -> 2 [] OTHER -> 5
Draw(k, s, d) == [i \in 1..d |-> IF Chance(k, s + i, 40) THEN 0 ELSE R(k, s + 20 + i, Vals + 1)]
Start(k) == [v |-> IF Focus = "pure" /\ Chance(k, 3, 25) THEN 6 + R(k, 2, 2) ELSE R(k, 2, Mods) + 1, a |-> TLCEval(Draw(k, 10, DimOf(Cls(k))))]

(* the next settings, from the present ones                                  *)
Target(k, s, c) ==
  LET d == Len(c.a)
      how == R(k, s, 100)
      i == IF d = 0 THEN 0 ELSE R(k, s + 1, d) + 1
      j == IF d = 0 THEN 0 ELSE R(k, s + 2, d) + 1
      turn(x, z) == (x + 1 + R(k, z, Vals)) % (Vals + 1)
  IN CASE how < 40 /\ d > 0 -> [c EXCEPT !.a[i] = turn(@, s + 3)]
       [] how < 48 /\ d > 0 -> [c EXCEPT !.a[i] = turn(@, s + 3), !.a[j] = turn(@, s + 4)]
       [] how < 68 -> [c EXCEPT !.v = R(k, s + 5, Mods) + 1]
       [] how < 73 -> c
       [] how < 80 -> [c EXCEPT !.a = [x \in 1..d |-> 0]]
       [] OTHER -> [v |-> R(k, s + 5, Mods) + 1, a |-> TLCEval(Draw(k, s + 40, d))]

Weights == CASE Focus \in {"update", "pinv"} -> [upd |-> 55, bad |-> 10, exec |-> 85, copy |-> 92]
             [] Focus = "reject"  -> [upd |-> 20, bad |-> 65, exec |-> 90, copy |-> 94]
             [] OTHER             -> [upd |-> 20, bad |-> 27, exec |-> 62, copy |-> 80]

RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetToSeq2(S \ {x})

InitE == /\ no \in Lo..Hi
         /\ t = 0
         /\ obj = (1 :> Derive(Start(no)))
         /\ memo = << >>
         /\ log = << [op |-> "new", o |-> 1, p |-> 0, cfg |-> Start(no), x |-> 0] >>
Step == LET s == 100 + 90 * t
            os == SetToSeq2(DOMAIN obj)
            o == os[R(no, s + 80, Len(os)) + 1]
            c == obj[o].cfg
            d == TLCEval(Target(no, s, c))
            w == R(no, s + 81, 100)
            x == R(no, s + 82, 1000)
            free == SetToSeq2(1..Objects \ DOMAIN obj)
            add(ev) == Append(log, ev)
            kind == TLCEval(IF w < Weights.upd THEN "upd"
                            ELSE IF w < Weights.upd + Weights.bad /\ Focus # "pure" THEN "bad"
                            ELSE IF w < Weights.exec \/ free = << >> THEN "exec"
                            ELSE IF w < Weights.copy THEN "copy" ELSE "new")
            \* another object: often one that differs in the function only
            n == TLCEval(IF c.v > 5 /\ Chance(no, s + 83, 60) THEN [c EXCEPT !.v = 13 - @] ELSE Target(no, s + 7, c))
        IN /\ obj' = CASE kind = "upd"  -> [obj EXCEPT ![o] = Updated(@, d)]
                       [] kind = "bad"  -> [obj EXCEPT ![o] = Rejected(@, d)]
                       [] kind = "exec" -> obj
                       [] kind = "copy" -> (free[1] :> obj[o]) @@ obj
                       [] kind = "new"  -> (free[1] :> Derive(n)) @@ obj
           /\ log' = CASE kind \in {"upd", "bad"} -> add([op |-> kind, o |-> o, p |-> 0, cfg |-> d, x |-> x])
                       [] kind = "exec" -> add([op |-> kind, o |-> o, p |-> 0, cfg |-> c, x |-> x])
                       [] kind = "copy" -> add([op |-> kind, o |-> o, p |-> free[1], cfg |-> c, x |-> x])
                       [] kind = "new"  -> add([op |-> kind, o |-> free[1], p |-> 0, cfg |-> n, x |-> x])
NextE == /\ t < Steps
         /\ Step
         /\ t' = t + 1
         /\ UNCHANGED << no, memo >>
         /\ (t' = Steps => PrintT("@@" \o ToJson([id |-> no, cls |-> Cls(no), log |-> log'])))

Init == IF Mode = "check" THEN InitC ELSE InitE
Next == IF Mode = "check" THEN NextC ELSE NextE
Spec == Init /\ [][Next]_vars
=============================================================================
