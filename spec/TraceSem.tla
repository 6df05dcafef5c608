------------------------------ MODULE TraceSem ------------------------------
(* Judges recorded episodes of the real kriging classes.                     *)
(*                                                                           *)
(* An episode is a sequence of events on a few objects.  The specification   *)
(* keeps the settings of every object and, for every canonical question, the *)
(* answers seen so far; each further answer has to agree with what follows   *)
(* from them: the same question has the same answer, answers are linear in   *)
(* the data values, constants and declared drift combinations are            *)
(* reproduced, data positions are answered exactly, the variance does not    *)
(* depend on the values.  Numbers are integers in millionths.                *)
EXTENDS Meaning, BigNat, Json, TLC

CONSTANT File
Trace == JsonDeserialize(File)

VARIABLES ep, l, objs, store, seen,
  ests      \* estimators: parameters and what their regression has learned
vars == << ep, l, objs, store, seen, ests >>

(* ----------------------------- drift values ------------------------------ *)
(* bilinear interpolation in millionths, axes in sixteenths of a position    *)
Millionths(a, d) == LET r == a % d
                        r1 == (r * 1000) % d
                    IN (a \div d) * 1000000 + ((r * 1000) \div d) * 1000 + ((r1 * 1000) \div d)
BilinearMicro(g, x, y) ==
  LET i == Below(g.ax, x)
      j == Below(g.ay, y)
      gx == g.ax[i + 1] - g.ax[i]
      gy == g.ay[j + 1] - g.ay[j]
  IN Millionths(g.z[j][i] * (g.ax[i + 1] - x) * (g.ay[j + 1] - y)
                 + g.z[j][i + 1] * (x - g.ax[i]) * (g.ay[j + 1] - y)
                 + g.z[j + 1][i] * (g.ax[i + 1] - x) * (y - g.ay[j])
                 + g.z[j + 1][i + 1] * (x - g.ax[i]) * (y - g.ay[j]), gx * gy)
Tab(e, name, p) == LET t == e.tables[name] IN (CHOOSE r \in Rng(t) : r.p = p).v
DriftAt(e, code, p) ==
  CASE code = "x"   -> p[1] * 1000000
    [] code = "y"   -> p[2] * 1000000
    [] code = "z"   -> p[3] * 1000000
    [] code = "xy"  -> p[1] * p[2] * 10000
    [] code = "ext" -> BilinearMicro(e.grid, 16 * p[1], 16 * p[2])
    [] OTHER        -> Tab(e, code, p)
DriftPart(e, s, p) == SumInt([i \in 1..Len(s.dco) |-> s.dco[i].d * DriftAt(e, s.dco[i].code, p)], 1, Len(s.dco))
(* the value given for datum i of an object *)
Given(e, s, i) == LET p == s.data[i]
                      B == Tab(e, "basis", IF s.geo THEN Place(p) ELSE p)
                  IN (s.co[1] * B[1] + s.co[2] * B[2] + s.co[3]) * 1000000 + DriftPart(e, s, p)

(* ------------------------------ one answer ------------------------------- *)
Near(a, b, t) == Abs(a - b) <= t + (Abs(a) \div 500000)

(* stands for a variance that was not asked for                              *)
NoVar == 2147483646

(* what an observation c, z, v must satisfy, given those stored              *)
Judge(e, s, Q, obs, z, v) ==
  LET zr == z - 1000000 * s.co[3] - DriftPart(e, s, Q.q)
      c == << s.co[1], s.co[2] >>
      tol == e.tol * (2 + Abs(c[1]) + Abs(c[2]) + SumInt([i \in 1..Len(s.dco) |-> Abs(s.dco[i].d)], 1, Len(s.dco)))
      mult == {n \in -3..3 : \E i \in DOMAIN obs : c = << n * obs[i].c[1], n * obs[i].c[2] >>}
      badmult == \E n \in mult : \E i \in DOMAIN obs :
                    /\ c = << n * obs[i].c[1], n * obs[i].c[2] >>
                    /\ ~Near(zr, n * obs[i].z, tol * (1 + Abs(n)))
      sums == {ij \in (DOMAIN obs) \X (DOMAIN obs) :
                    /\ ij[1] < ij[2]
                    /\ c = << obs[ij[1]].c[1] + obs[ij[2]].c[1], obs[ij[1]].c[2] + obs[ij[2]].c[2] >>}
      badsum == \E ij \in sums : ~Near(zr, obs[ij[1]].z + obs[ij[2]].z, 3 * tol)
      exactly == Q.hit /\ ~Q.open /\ (s.exact \/ NuggetOf(s) = 0)
      known == {i \in DOMAIN obs : obs[i].v # NoVar}
  IN [fails |->
        (IF c = <<0, 0>> /\ ~Near(zr, 0, tol) THEN <<"constants and drift combinations are reproduced">> ELSE <<>>)
        \o (IF exactly /\ ~Near(z, Given(e, s, Q.at), tol) THEN <<"the estimate at a data position is its value">> ELSE <<>>)
        \o (IF exactly /\ v # NoVar /\ Abs(v) > e.vtol THEN <<"the variance at a data position is zero">> ELSE <<>>)
        \o (IF badmult THEN <<"answers to one question agree (estimate)">> ELSE <<>>)
        \o (IF badsum THEN <<"estimates add up with the values">> ELSE <<>>)
        \o (IF v # NoVar /\ \E i \in known : ~Near(v, obs[i].v, e.vtol) THEN <<"answers to one question agree (variance)">> ELSE <<>>)
        \o (IF e.valid /\ v < -e.vtol THEN <<"the variance is not negative">> ELSE <<>>),
      cmp |-> (IF c = <<0, 0>> THEN 1 ELSE 0) + (IF exactly THEN 1 ELSE 0) + Cardinality(mult) + Cardinality(sums),
      new |-> IF \E i \in DOMAIN obs : obs[i].c = c /\ (obs[i].v # NoVar \/ v = NoVar) THEN obs
              ELSE Append(obs, [c |-> c, z |-> zr, v |-> v])]

(* ------------------------------ requests --------------------------------- *)
(* x varies fastest, then y, then z *)
CellsOf(ax) ==
  IF Len(ax) = 2
    THEN [t \in 1..(Len(ax[1]) * Len(ax[2])) |->
            << ax[1][((t - 1) % Len(ax[1])) + 1], ax[2][((t - 1) \div Len(ax[1])) + 1] >>]
    ELSE [t \in 1..(Len(ax[1]) * Len(ax[2]) * Len(ax[3])) |->
            << ax[1][((t - 1) % Len(ax[1])) + 1],
               ax[2][(((t - 1) \div Len(ax[1])) % Len(ax[2])) + 1],
               ax[3][((t - 1) \div (Len(ax[1]) * Len(ax[2]))) + 1] >>]
Cells(ev) == IF ev.style = "points" THEN ev.pts ELSE CellsOf(ev.axes)
Shape(ev) == IF ev.style = "points" THEN << Len(ev.pts) >>
             ELSE Reverse([a \in 1..Len(ev.axes) |-> Len(ev.axes[a])])

(* the mask as given: nested sequences in the shape of the grid, or, when    *)
(* the shape differs, with first and last axis exchanged                     *)
MaskShape(m, d) == IF d = 2 THEN << Len(m), Len(m[1]) >> ELSE << Len(m), Len(m[1]), Len(m[1][1]) >>
Excluded(ev, t) ==
  IF ev.style # "masked" THEN FALSE
  ELSE LET d == Len(ev.axes)
           nx == Len(ev.axes[1])
           ny == Len(ev.axes[2])
           ix == ((t - 1) % nx) + 1
           iy == (((t - 1) \div nx) % ny) + 1
           iz == ((t - 1) \div (nx * ny)) + 1
           straight == MaskShape(ev.mask, d) = Shape(ev)
       IN IF d = 2 THEN (IF straight THEN ev.mask[iy][ix] ELSE ev.mask[ix][iy])
          ELSE (IF straight THEN ev.mask[iz][iy][ix] ELSE ev.mask[ix][iy][iz])

(* ------------------------------- events ---------------------------------- *)
None == [fails |-> <<>>, cmp |-> 0]

(* ------------------------------ estimators ------------------------------- *)
(* The scikit-learn estimator holds parameters; fitting builds the kriging   *)
(* object its method selects from the parameters this method has.            *)
ThreeD(P) == P.method \in {"ordinary3d", "universal3d"}
ClassOf(P) == CASE P.method = "ordinary" -> "ok" [] P.method = "universal" -> "uk"
                [] P.method = "ordinary3d" -> "ok3d" [] OTHER -> "uk3d"
Routed(P, ev) ==
  [cls |-> ClassOf(P), geo |-> P.geo /\ P.method = "ordinary",
   data |-> ev.data, co |-> ev.co, dco |-> <<>>, vario |-> P.vario, exact |-> P.exact,
   rot |-> IF ThreeD(P) THEN <<0, 0, 0>> ELSE <<0>>,
   ang |-> IF ThreeD(P) THEN P.ang ELSE << P.ang[1] >>,
   sca |-> IF ThreeD(P) THEN P.sca ELSE << P.sca[1] >>,
   drift |-> IF P.method = "universal" THEN P.drift
             ELSE IF P.method = "universal3d" THEN SelectSeq(P.drift, LAMBDA c : c \notin {"w1", "w2", "ext"})
             ELSE <<>>]
(* the moving window belongs to the ordinary methods; what counts is the     *)
(* method fitted with, whatever has been set since then                      *)
WindowSize(s, E) == IF s.cls \in {"ok", "ok3d"} THEN E.P.k ELSE 0

(* Regression kriging: what the regression says at a sample with predictor x *)
(* is slope * x + the first target it was fitted to; the rest is kriged.     *)
Regress(E, x) == (E.slope * x + E.first) * 1000000
Regression(E, ev, t) == IF ev.plus THEN Regress(E, ev.pp[t]) ELSE 0
Learned(E, ev) == IF ev.reg THEN [E EXCEPT !.slope = ev.slope, !.first = ev.y[1]] ELSE E
(* the logged targets are regression plus residual                           *)
Decomposed(e, ev, E) ==
  ev.reg => \A i \in 1..Len(ev.y) : ev.y[i] * 1000000 - Regress(E, ev.pp[i]) = Given(e, Routed(E.P, ev), i)

(* coefficient of determination of the estimates z (millionths) for the      *)
(* targets y with weights w:                                                 *)
(*   (1 - score) * (W sum w y^2 - (sum w y)^2) = W sum w (y - z)^2            *)
Milli(x) == IF x >= 0 THEN (x + 500) \div 1000 ELSE -((500 - x) \div 1000)
ScoreOk(ev) ==
  LET n == Len(ev.y)
      W == SumInt(ev.w, 1, n)
      Sy == SumInt([i \in 1..n |-> ev.w[i] * ev.y[i]], 1, n)
      D == W * SumInt([i \in 1..n |-> ev.w[i] * ev.y[i] * ev.y[i]], 1, n) - Sy * Sy
      dev(i) == Abs(ev.y[i] * 1000 - Milli(ev.z[i]))
      big == FoldLeft(LAMBDA a, i : BigAdd(a, BigMul(Digits(W * ev.w[i]), BigMul(Digits(dev(i)), Digits(dev(i))))), <<0>>, [i \in 1..n |-> i])
      slack == Digits(W * SumInt([i \in 1..n |-> ev.w[i] * (2 * dev(i) + 2)], 1, n) + 2 * D + 1000)
      want == BigMul(Digits(1000000 - ev.val), Digits(D))
  IN D = 0 \/ (BigCmp(big, BigAdd(want, slack)) <= 0 /\ BigCmp(want, BigAdd(big, slack)) <= 0)

ExecStep(e, ev, S) ==
  LET s == objs[ev.o]
      width == IF ev.op = "exec" THEN ev.k ELSE WindowSize(objs[ev.o], ests[ev.o])
      regress(t) == IF ev.op = "exec" THEN 0 ELSE Regression(ests[ev.o], ev, t)
      cells == TLCEval(Cells(ev))
      step(acc, t) ==
        LET ex == Excluded(ev, t) IN
        IF ex # ev.m[t]
          THEN [acc EXCEPT !.fails = Append(@, << t, <<"exactly the marked cells are masked">> >>)]
        ELSE IF ex THEN acc
        ELSE IF ev.z[t] = 2147483647
          THEN [acc EXCEPT !.fails = Append(@, << t, <<"answers are numbers of the size of the data">> >>)]
        ELSE LET Q0 == Question(s, cells[t], width)
                 Q == [hit |-> Q0.hit, at |-> Q0.at, open |-> Q0.open, q |-> cells[t]]
             IN IF Q0.tie THEN acc ELSE
             LET obs == IF Q0.key \in DOMAIN acc.store THEN acc.store[Q0.key] ELSE <<>>
                 J == TLCEval(Judge(e, s, Q, obs, ev.z[t] - regress(t), ev.v[t]))
             IN [store |-> IF J.new = obs THEN acc.store ELSE TLCEval((Q0.key :> J.new) @@ acc.store),
                 fails |-> IF J.fails = <<>> THEN acc.fails ELSE Append(acc.fails, << t, J.fails >>),
                 cmp |-> acc.cmp + J.cmp]
  IN IF ev.err # ""
       THEN [store |-> S, fails |-> << << 0, <<"a request inside the documented domain is answered">> >> >>, cmp |-> 0]
     ELSE IF ev.shape # Shape(ev)
       THEN [store |-> S, fails |-> << << 0, <<"the answer has the shape of the request">> >> >>, cmp |-> 0]
     ELSE FoldLeft(LAMBDA acc, t : TLCEval(step(acc, t)), [store |-> S, fails |-> <<>>, cmp |-> 0],
                   [t \in 1..Len(cells) |-> t])

(* reports of an object: lists of numbers fixed by its settings              *)
RepStep(e, ev, S) ==
  LET key == << "rep", ev.what, objs[ev.o] >>
      have == IF key \in DOMAIN S THEN S[key] ELSE <<>>
  IN IF ev.err # ""
       THEN [store |-> S, fails |-> << << 0, <<"reports are available">> >> >>, cmp |-> 0]
     ELSE IF have = <<>> THEN [store |-> (key :> << ev.vals >>) @@ S, fails |-> <<>>, cmp |-> 0]
     ELSE IF Len(have[1]) = Len(ev.vals) /\ \A i \in 1..Len(ev.vals) : Near(ev.vals[i], have[1][i], e.tol)
       THEN [store |-> S, fails |-> <<>>, cmp |-> 1]
     ELSE [store |-> S, fails |-> << << 0, <<"reports depend on the settings in force only">> >> >>, cmp |-> 1]

(* The fit statistics predict every datum from those before it, by ordinary  *)
(* kriging without drift: what is logged for datum i is the answer of an     *)
(* object of the data before it.                                             *)
Before(s, i) == [s EXCEPT !.data = SubSeq(s.data, 1, i - 1), !.drift = <<>>, !.exact = TRUE,
                          !.cls = IF Three(s) THEN "ok3d" ELSE "ok"]
(* Q1, Q2 are mean and mean square of the normalised residuals (one of which  *)
(* is spent), cR is Q2 times the geometric mean of the variances; in units   *)
(* of 10^-5, logarithms for the latter                                       *)
Total(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Summary(ev) ==
  LET n == ev.n
      near(a, b) == Abs(a - b) <= 3 * n + (Abs(b) \div 50000)
  IN /\ Len(ev.eps) = n
     /\ \A i \in 1..n : /\ Abs(ev.eps[i]) <= 100001
                        /\ LET h == ev.eps[i] \div 10 IN Abs((h * h) \div 1000 - ev.sq[i]) <= 40
     /\ Abs(ev.q[1]) < 400000000 \div n /\ Abs(ev.q[2]) < 400000000 \div n /\ Abs(ev.q[3]) < 2000000000 \div n
     /\ near(ev.q[1] * (n - 1), Abs(Total(ev.eps)))
     /\ near(ev.q[2] * (n - 1), Total(ev.sq))
     /\ near(ev.q[3] * n, Total(ev.lg))
StatStep(e, ev, S) ==
  LET s == objs[ev.o]
      step(acc, t) ==
        LET i == ev.idx[t]
            Q0 == Question(Before(s, i), s.data[i], 0)
            Q == [hit |-> Q0.hit, at |-> Q0.at, open |-> Q0.open, q |-> s.data[i]]
            obs == IF Q0.key \in DOMAIN acc.store THEN acc.store[Q0.key] ELSE <<>>
            J == TLCEval(Judge(e, Before(s, i), Q, obs, ev.z[t], ev.v[t]))
        IN [store |-> IF J.new = obs THEN acc.store ELSE TLCEval((Q0.key :> J.new) @@ acc.store),
            fails |-> IF J.fails = <<>> THEN acc.fails ELSE Append(acc.fails, << i, J.fails >>),
            cmp |-> acc.cmp + J.cmp]
  IN IF ev.err # ""
       THEN [store |-> S, fails |-> << << 0, <<"reports are available">> >> >>, cmp |-> 0]
     ELSE IF ev.n # Len(s.data) - 1
       THEN [store |-> S, fails |-> << << 0, <<"the statistics predict every datum but the first">> >> >>, cmp |-> 0]
     ELSE IF ~Summary(ev)
       THEN [store |-> S, fails |-> << << 0, <<"Q1, Q2 and cR summarise the residuals and their errors">> >> >>, cmp |-> 0]
     ELSE FoldLeft(LAMBDA acc, t : TLCEval(step(acc, t)), [store |-> S, fails |-> <<>>, cmp |-> 0], [t \in 1..Len(ev.idx) |-> t])

Fail(ev, what) == [store |-> store, fails |-> << << 0, <<what>> >> >>, cmp |-> 0]
Fine == [store |-> store, fails |-> <<>>, cmp |-> 1]

(* answers of an unknown function: the same call gives the same numbers      *)
RepeatStep(e, ev) ==
  LET key == << "same", ev.key >> IN
  IF ev.err # "" THEN Fail(ev, "a request inside the documented domain is answered")
  ELSE IF key \notin DOMAIN store THEN [store |-> (key :> ev.vals) @@ store, fails |-> <<>>, cmp |-> 0]
  ELSE IF Len(store[key]) = Len(ev.vals) /\ \A i \in 1..Len(ev.vals) : Near(ev.vals[i], store[key][i], e.tol) THEN Fine
  ELSE Fail(ev, "the same call gives the same answer")

Effect(e, ev) ==
  CASE ev.op = "exec" -> ExecStep(e, ev, store)
    [] ev.op = "rep"  -> RepStep(e, ev, store)
    [] ev.op = "pred" -> ExecStep(e, ev, store)
    [] ev.op = "stat" -> StatStep(e, ev, store)
    [] ev.op = "score" -> IF ~ScoreOk(ev) THEN Fail(ev, "the score is the coefficient of determination") ELSE Fine
    [] ev.op = "same" -> RepeatStep(e, ev)
    [] ev.op = "fit" -> IF ev.err # "" THEN Fail(ev, "fits inside the documented domain succeed")
                        ELSE IF ~Decomposed(e, ev, Learned(ests[ev.o], ev)) THEN Fail(ev, "MACHINERY: targets do not decompose")
                        ELSE Fine
    [] ev.op = "getp" -> IF ev.wrong # "" THEN Fail(ev, "parameters are reported as they were given") ELSE Fine
    [] ev.op \in {"new", "upd", "est", "setp", "sclone"} -> IF ev.err # "" THEN Fail(ev, "settings inside the documented domain are accepted") ELSE Fine
    [] ev.op = "bad"  -> IF ev.err = "" THEN Fail(ev, "settings outside the documented domain are refused") ELSE Fine
    \* what talks or draws has no effect on the objects
    [] ev.op = "show" -> IF ev.err # "" THEN Fail(ev, "objects can be shown") ELSE Fine
    [] ev.op = "args" -> IF ev.changed THEN Fail(ev, "arguments and earlier answers are left as they were") ELSE Fine
    [] OTHER -> [store |-> store, fails |-> <<>>, cmp |-> 0]

Objects(ev) ==
  CASE ev.op = "new" /\ ev.err = "" -> (ev.o :> ev.s) @@ objs
    [] ev.op = "upd" /\ ev.err = "" -> [objs EXCEPT ![ev.o] = Updated(@, ev.u)]
    [] ev.op = "clone" -> (ev.p :> objs[ev.o]) @@ objs
    [] ev.op = "fit" /\ ev.err = "" -> (ev.o :> Routed(ests[ev.o].P, ev)) @@ objs
    [] OTHER -> objs

(* a clone has the parameters only; parameters take effect with the next fit *)
Estimators(ev) ==
  CASE ev.op = "est" /\ ev.err = "" -> (ev.o :> [P |-> ev.P, slope |-> 0, first |-> 0]) @@ ests
    [] ev.op = "setp" /\ ev.err = "" ->
         [ests EXCEPT ![ev.o].P = [f \in DOMAIN @ |-> IF f \in DOMAIN ev.ch THEN ev.ch[f] ELSE @[f]]]
    [] ev.op = "sclone" /\ ev.err = "" -> (ev.p :> ests[ev.o]) @@ ests
    [] ev.op = "fit" /\ ev.err = "" -> [ests EXCEPT ![ev.o] = Learned(@, ev)]
    [] OTHER -> ests

(* a failed construction leaves nothing to judge further *)
Alive(ev) == \/ ev.op \in {"new", "mut", "est", "same", "score", "bad"}
             \/ ev.op \in {"fit", "setp", "sclone", "getp"} /\ ev.o \in DOMAIN ests
             \/ ev.o \in DOMAIN objs

Init == ep \in 1..Len(Trace) /\ l = 1 /\ objs = << >> /\ store = << >> /\ seen = 0 /\ ests = << >>
Step == LET e == Trace[ep]
            ev == e.events[l]
            r == IF Alive(ev) THEN TLCEval(Effect(e, ev)) ELSE [store |-> store, fails |-> <<>>, cmp |-> 0]
        IN /\ l <= Len(e.events)
           /\ (r.fails # <<>> =>
                 PrintT("@@" \o ToJson([ep |-> ep, l |-> l, fails |-> SubSeq(r.fails, 1, Min(3, Len(r.fails)))])))
           /\ objs' = IF Alive(ev) THEN TLCEval(Objects(ev)) ELSE objs
           /\ ests' = IF Alive(ev) THEN TLCEval(Estimators(ev)) ELSE ests
           /\ store' = r.store
           /\ seen' = seen + r.cmp
           /\ l' = l + 1
           /\ UNCHANGED ep
           /\ (l = Len(e.events) => PrintT("@@" \o ToJson([ep |-> ep, done |-> seen + r.cmp])))
Next == Step
Spec == Init /\ [][Next]_vars
View == << ep, l >>
=============================================================================
