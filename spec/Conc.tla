-------------------------------- MODULE Conc --------------------------------
(* Requests in progress at the same time: several threads, and requests      *)
(* started from inside the variogram or drift functions of another request.  *)
(*                                                                           *)
(* A thread is a stack of frames, the innermost one last; a frame is one     *)
(* request on one object.  A request stages its points and mask, lets the    *)
(* kriging matrix be evaluated (a call of the variogram function), and then  *)
(* prepares, evaluates and solves the right-hand side of every cell.  Every  *)
(* evaluation is a place where another thread may go on, or where the user's *)
(* function may start a request of its own.  The working store of a request  *)
(* is its own (a local variable); Faults moves parts of it to the object, to *)
(* the class, or keeps it from one request to the next.                      *)
(*                                                                           *)
(* NonInterference: an answer is what the request would get alone, and       *)
(* nothing of it remains in the object.                                      *)
(* Mode "check": all behaviours.  Mode "emit": every behaviour, as a list of *)
(* moves at the granularity of the calls of user functions.                  *)
(* Mode "slices": schedules of at most Slices slices for two threads, each   *)
(* slice ending at a percentage of the thread's work.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Threads, Cells, Objects, Nests, Faults, Slices, Grain

VARIABLES th,       \* thread -> stack of frames
          store,    \* shared stores: object -> contents (only used by faults)
          left,     \* nested requests still to be started
          answers,  \* set of finished requests [id, obj, cells]
          log       \* emit: the moves
vars == << th, store, left, answers, log >>

Clean == [points |-> 0, rhs |-> << 0, 0 >>, matrix |-> 0, mask |-> 0]

(* frame: id of the request, object, next step, cell, own working store      *)
Frame(id, o) == [id |-> id, o |-> o, at |-> "stage", cell |-> 1, own |-> Clean, got |-> << >>]
Key(o) == IF "class" \in Faults THEN 1 ELSE o
Read(f, field) == IF field \in Faults THEN store[Key(f.o)][field] ELSE f.own[field]

(* one step of a frame: a new frame and new shared stores                    *)
Put(f, field, v) == IF field \in Faults THEN [f |-> f, s |-> [store EXCEPT ![Key(f.o)][field] = v]]
                    ELSE [f |-> [f EXCEPT !.own[field] = v], s |-> store]
Stage(f) == LET a == Put(f, "points", f.id)
                b == IF "mask" \in Faults THEN [f |-> a.f, s |-> [a.s EXCEPT ![Key(f.o)].mask = f.id]]
                     ELSE [f |-> [a.f EXCEPT !.own.mask = f.id], s |-> a.s]
            IN [f |-> [b.f EXCEPT !.at = "matrix"], s |-> b.s]
Fill(f)  == LET a == Put(f, "matrix", f.o) IN [f |-> [a.f EXCEPT !.at = "prepare"], s |-> a.s]
(* the call of the user's function lies between prepare and solve            *)
Prepare(f) == LET a == Put(f, "rhs", << Read(f, "points"), f.cell >>) IN [f |-> [a.f EXCEPT !.at = "solve"], s |-> a.s]
Solve(f) == [f |-> [f EXCEPT !.got = Append(@, << Read(f, "rhs"), Read(f, "matrix"), Read(f, "mask") >>),
                             !.cell = @ + 1, !.at = IF f.cell = Cells THEN "end" ELSE "prepare"], s |-> store]
Alone(f) == [i \in 1..Cells |-> << << f.id, i >>, f.o, f.id >>]

Move1(f) == CASE f.at = "stage" -> Stage(f) [] f.at = "matrix" -> Fill(f) [] f.at = "prepare" -> Prepare(f) [] f.at = "solve" -> Solve(f)

Top(t) == th[t][Len(th[t])]

Init == /\ \E plan \in [Threads -> 1..Objects] :
              /\ plan[1] = 1
              /\ th = [t \in Threads |-> << Frame(t, plan[t]) >>]
              /\ log = IF Mode = "emit" THEN << << 0, plan >> >> ELSE << >>
        /\ store = [o \in 1..Objects |-> Clean]
        /\ left = Nests
        /\ answers = {}

Step(t) == /\ th[t] # << >>
           /\ Top(t).at # "end"
           /\ LET r == Move1(Top(t)) IN
              /\ th' = [th EXCEPT ![t][Len(th[t])] = r.f]
              /\ store' = r.s
              /\ log' = IF Mode = "emit" /\ Top(t).at \in {"matrix", "solve"} THEN Append(log, << t, 0 >>) ELSE log
           /\ UNCHANGED << left, answers >>
(* the user's function starts a request of its own                           *)
Nest(t) == /\ th[t] # << >>
           /\ left > 0
           /\ Top(t).at \in {"matrix", "solve"}
           /\ \E o \in 1..Objects :
                /\ th' = [th EXCEPT ![t] = Append(@, Frame(Cardinality(Threads) + 1 + Nests - left, o))]
                /\ log' = IF Mode = "emit" THEN Append(log, << t, o >>) ELSE log
           /\ left' = left - 1
           /\ UNCHANGED << store, answers >>
Finish(t) == /\ th[t] # << >>
             /\ Top(t).at = "end"
             /\ answers' = answers \cup {[ok |-> Top(t).got = Alone(Top(t)), id |-> Top(t).id]}
             /\ th' = [th EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
               /\ UNCHANGED << store, left, log >>
(* in mode "emit" a frame runs on to its next call without interruption      *)
Urgent(t) == th[t] # << >> /\ Top(t).at \in {"stage", "prepare", "end"}
SomeUrgent == \E t \in Threads : Urgent(t)
Done == \A t \in Threads : th[t] = << >>

NextReq == \/ /\ Mode = "check"
              /\ \E t \in Threads : Step(t) \/ Nest(t) \/ Finish(t)
           \/ /\ Mode = "emit"
              /\ IF SomeUrgent
                 THEN LET t == CHOOSE t \in Threads : Urgent(t) IN Step(t) \/ Finish(t)
                 ELSE \E t \in Threads : Step(t) \/ Nest(t)
              /\ (\A t \in Threads : th'[t] = << >>) => PrintT("@@" \o ToJson([moves |-> log']))

NonInterference == \A a \in answers : a.ok
NothingLeft == Done => \A o \in 1..Objects : store[o] = Clean

(* ------------------------------- slices ---------------------------------- *)
(* alternating between two threads; each slice goes further than the last    *)
Ends == {Grain * i : i \in 1..((100 \div Grain) - 1)}
InitS == /\ th = << >> /\ store = << >> /\ left = 0 /\ answers = {}
         /\ log = << >>
Far(t) == LET S == {log[i][2] : i \in {j \in 1..Len(log) : log[j][1] = t}} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
NextS == /\ Len(log) < Slices
         /\ \E e \in Ends : LET t == (Len(log) % 2) + 1 IN e > Far(t) /\ log' = Append(log, << t, e >>)
         /\ Len(log') = Slices => PrintT("@@" \o ToJson([moves |-> log']))
         /\ UNCHANGED << th, store, left, answers >>

SpecR == Init /\ [][NextReq]_vars
SpecS == InitS /\ [][NextS]_vars
=============================================================================
