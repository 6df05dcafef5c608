------------------------------ MODULE Requests ------------------------------
(* Which constructions, updates and requests are inside the documented       *)
(* domain, and what their inputs mean.                                       *)
(*                                                                           *)
(* Every table is a set of cases.  Verdict(c) is declarative: the set of     *)
(* reasons to refuse the case; it has to be refused iff there is one, and    *)
(* otherwise answered with arrays of the given shape, masks and drift        *)
(* arrays being read in the given orientation.  A few cases, of which the    *)
(* documentation says nothing, are "open".                                   *)
(*                                                                           *)
(* Arrays over the grid of a request are judged in the code axis by axis     *)
(* (Machine below); mode "check" shows for every shape that this test takes  *)
(* exactly the arrays of the declarative definition.  Faults names mistakes  *)
(* in that test; each one must be found (negative controls).                 *)
EXTENDS Choice, FiniteSets, Json
CONSTANTS Mode, Table, Faults, Size, Lo, Hi

VARIABLES case, done
vars == << case, done >>

Flat == {"ok", "uk"}
Deep == {"ok3d", "uk3d"}
Ordinary == {"ok", "ok3d"}
Classes == {"ok", "uk", "ok3d", "uk3d"}
DimOf(c) == IF c \in Deep THEN 3 ELSE 2
N == 14                                 \* data points of every object

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Volume(_)
Volume(s) == IF s = << >> THEN 1 ELSE Head(s) * Volume(Tail(s))
Tuples(n, S) == [1..n -> S]

(* ------------------------- arrays over the grid -------------------------- *)
(* sz = << nx, ny >> or << nx, ny, nz >>; the documented shape is reversed   *)
Want(sz) == Rev(sz)
Fits(sh, sz) == IF sh = Want(sz) THEN "asis"
                ELSE IF sh = sz THEN "swapped"
                ELSE IF Len(sh) > Len(sz) /\ Volume(sh) = Volume(sz) THEN "open"
                ELSE "no"

Machine(sh, sz) ==
  LET d == Len(sz)
      w == Want(sz)
      axes == CASE "first" \in Faults -> {1} [] "last" \in Faults -> {d} [] "volume" \in Faults -> {} [] OTHER -> 1..d
      asis == \A i \in axes : sh[i] = w[i]
      swap == /\ "noswap" \notin Faults
              /\ IF "perm" \in Faults
                 THEN \E p \in {q \in [1..d -> 1..d] : \A i, j \in 1..d : q[i] = q[j] => i = j} : \A i \in 1..d : sh[i] = sz[p[i]]
                 ELSE \A i \in axes : sh[i] = sz[i]
  IN IF Len(sh) < d THEN (IF "short" \in Faults /\ Volume(sh) = Volume(sz) THEN "asis" ELSE "no")
     ELSE IF ~asis /\ ~swap THEN "no"
     ELSE IF Volume(sh) # Volume(sz) THEN "no"      \* caught when it is used
     ELSE IF asis THEN "asis"
     ELSE IF "reshape" \in Faults THEN "asis" ELSE "swapped"

Shapes(d) == Tuples(d, 1..Size) \cup Tuples(d - 1, 1..Size) \cup {<< n >> : n \in 1..Size * Size}
             \cup {Append(s, n) : s \in Tuples(d, 1..Size), n \in {1, 2}}
ShapeCases == {[sz |-> z, sh |-> s] : z \in Tuples(2, 1..Size), s \in Shapes(2)}
              \cup {[sz |-> z, sh |-> s] : z \in Tuples(3, 1..Size), s \in Shapes(3)}
ShapesAgree == (Mode = "check" /\ Table = "shapes" /\ done = 0)
               => (Fits(case.sh, case.sz) # "open" => Machine(case.sh, case.sz) = Fits(case.sh, case.sz))

(* -------------------------------- requests ------------------------------- *)
(* win: 0 none; mask: << >> none; terms: specified drift terms of the object *)
(* arrays: shapes given with the request; wrap: how they are given           *)
Styles == {"grid", "masked", "points"}
Backends(c, win, model) ==
  CASE c.cls = "ok"   -> (IF win = 0 THEN {"vectorized", "loop"} ELSE {"loop"}) \cup (IF model = "builtin" THEN {"C"} ELSE {})
    [] c.cls = "ok3d" -> IF win = 0 THEN {"vectorized", "loop"} ELSE {"loop"}
    [] OTHER          -> {"vectorized", "loop"}

PointArray(sh, n) == IF sh = << n >> THEN "asis" ELSE IF sh = << n, 1 >> THEN "column" ELSE IF Volume(sh) = n THEN "open" ELSE "no"
ArrayFits(sh, c) == IF c.style = "points" THEN PointArray(sh, c.sz[1]) ELSE Fits(sh, c.sz)

RequestReasons(c) ==
     (IF c.style \notin Styles THEN {"style"} ELSE {})
  \cup (IF c.backend \notin Backends(c, c.win, c.model) THEN {"backend"} ELSE {})
  \cup (IF c.win # 0 /\ (c.win < 2 \/ c.win > N) THEN {"window"} ELSE {})
  \cup (IF c.style = "points" /\ \E i \in 1..Len(c.sz) : c.sz[i] # c.sz[1] THEN {"point lists"} ELSE {})
  \cup (IF c.style = "masked" /\ c.mask = << >> THEN {"no mask"} ELSE {})
  \cup (IF c.style = "masked" /\ c.mask # << >> /\ Fits(c.mask, c.sz) = "no" THEN {"mask"} ELSE {})
  \cup (IF c.terms > 0 /\ c.wrap # "list" THEN {"drift not in a list"} ELSE {})
  \cup (IF c.terms > 0 /\ Len(c.arrays) # c.terms THEN {"number of drift arrays"} ELSE {})
  \cup (IF c.terms > 0 /\ \E i \in 1..Len(c.arrays) : ArrayFits(c.arrays[i], c) = "no" THEN {"drift array"} ELSE {})
RequestOpen(c) ==
  \/ c.style = "masked" /\ c.mask # << >> /\ Fits(c.mask, c.sz) = "open"
  \/ c.terms > 0 /\ \E i \in 1..Len(c.arrays) : ArrayFits(c.arrays[i], c) = "open"
  \/ c.terms > 0 /\ c.wrap = "tuple"

RequestVerdict(c) ==
  [verdict |-> IF RequestReasons(c) # {} THEN "refuse" ELSE IF RequestOpen(c) THEN "open" ELSE "answer",
   why |-> RequestReasons(c),
   shape |-> IF c.style = "points" THEN << c.sz[1] >> ELSE Want(c.sz),
   mask |-> IF c.style = "masked" /\ c.mask # << >> THEN Fits(c.mask, c.sz) ELSE "none",
   arrays |-> [i \in 1..Len(c.arrays) |-> ArrayFits(c.arrays[i], c)]]

Good(k, cls) == LET a == R(k, 31, Size) + 1 IN
                [i \in 1..DimOf(cls) |-> IF Chance(k, 30, 25) THEN a ELSE R(k, 31 + i, Size) + 1]
Plain(k, cls) ==                         \* a valid request, to be spoilt
  LET style == Pick(k, 1, << "grid", "masked", "points" >>)
      z == TLCEval(Good(k, cls))
      sz == IF style = "points" THEN [i \in 1..Len(z) |-> z[1]] ELSE z
      win == IF cls \in Ordinary /\ Chance(k, 3, 40) THEN R(k, 4, N - 1) + 2 ELSE 0
      back == IF win # 0 THEN "loop" ELSE Pick(k, 5, << "loop", "vectorized" >>)
      model == IF cls = "ok" /\ Chance(k, 6, 25) THEN "custom" ELSE "builtin"
      terms == IF cls \in Ordinary THEN 0 ELSE R(k, 8, 3)
  IN [cls |-> cls, geo |-> cls = "ok" /\ Chance(k, 7, 30), sz |-> sz, style |-> style,
      backend |-> IF cls = "ok" /\ model = "builtin" /\ Chance(k, 9, 40) THEN "C" ELSE back,
      win |-> win, model |-> model, terms |-> terms, wrap |-> "list",
      mask |-> IF style = "masked" THEN (IF Chance(k, 10, 30) THEN sz ELSE Want(sz)) ELSE << >>,
      arrays |-> TLCEval([i \in 1..terms |-> IF style = "points" THEN (IF Chance(k, 11 + i, 20) THEN << sz[1], 1 >> ELSE << sz[1] >>)
                                             ELSE IF Chance(k, 11 + i, 30) THEN sz ELSE Want(sz)])]
AnyShape(k, s, d) == LET n == Pick(k, s, << d, d, d, d, d - 1, 1, d + 1 >>)
                     IN TLCEval([i \in 1..n |-> IF i = d + 1 THEN R(k, s + i, 2) + 1 ELSE R(k, s + i, Size) + 1])
Permuted(k, s, sh) == IF Len(sh) = 3 THEN Pick(k, s, << << sh[2], sh[1], sh[3] >>, << sh[1], sh[3], sh[2] >>, << sh[2], sh[3], sh[1] >> >>)
                      ELSE << sh[1] * sh[2] >>
Odd(k, s, sh, sz) == CASE Chance(k, s, 30) -> Permuted(k, s + 1, Want(sz))
                       [] OTHER -> AnyShape(k, s + 10, Len(sz))
Bump(sh, i) == [sh EXCEPT ![i] = @ + 1]
Spoil(k, s, c) ==
  LET d == Len(c.sz)
      what == Pick(k, s, << "style", "backend", "win", "mask", "mask", "mask", "nomask", "points", "points", "arrays", "arrays", "arrays", "count", "wrap", "grid" >>)
  IN CASE what = "style" -> [c EXCEPT !.style = Pick(k, s + 1, << "Grid", "mask", "point", "" >>)]
       [] what = "backend" -> [c EXCEPT !.backend = Pick(k, s + 1, << "C", "vectorized", "vector", "c", "" >>)]
       [] what = "win" /\ c.cls \in Ordinary -> [c EXCEPT !.win = Pick(k, s + 1, << 1, -1, -3, N + 1, N + 4, N, 2 >>)]
       [] what = "mask" /\ c.style = "masked" -> [c EXCEPT !.mask = Odd(k, s + 2, @, c.sz)]
       [] what = "nomask" -> [c EXCEPT !.mask = << >>]
       [] what = "points" /\ c.style = "points" -> [c EXCEPT !.sz = Bump(@, R(k, s + 3, d) + 1)]
       [] what = "arrays" /\ Len(c.arrays) > 0 ->
            [c EXCEPT !.arrays[R(k, s + 4, Len(c.arrays)) + 1] =
                IF c.style = "points" THEN Pick(k, s + 5, << << c.sz[1] + 1 >>, << 1, c.sz[1] >>, << c.sz[1], 2 >>, << 2 * c.sz[1] >>, << c.sz[1], 1 >> >>)
                ELSE Odd(k, s + 6, @, c.sz)]
       [] what = "count" /\ c.terms > 0 -> [c EXCEPT !.arrays = IF Chance(k, s + 7, 50) THEN Tail(@) ELSE Append(@, @[1])]
       [] what = "wrap" -> [c EXCEPT !.wrap = Pick(k, s + 8, << "array", "none", "tuple" >>)]
       [] what = "grid" -> [c EXCEPT !.style = "grid"]
       [] OTHER -> c
RequestCase(k) == LET cls == Pick(k, 0, << "ok", "ok", "uk", "ok3d", "uk3d" >>)
                      c == TLCEval(Plain(k, cls))
                      n == Pick(k, 2, << 0, 1, 1, 1, 2 >>)
                      c1 == TLCEval(IF n > 0 THEN Spoil(k, 100, c) ELSE c)
                  IN TLCEval(IF n > 1 THEN Spoil(k, 200, c1) ELSE c1)

(* every shape of a mask and of a drift array, on a small object             *)
MaskCase(s, c) == [cls |-> c \o (IF Len(s.sz) = 2 THEN "" ELSE "3d"), geo |-> FALSE, sz |-> s.sz, style |-> "masked",
                backend |-> IF (Volume(s.sh) + s.sz[1] + s.sh[1]) % 2 = 0 THEN "loop" ELSE "vectorized",
                win |-> 0, model |-> "builtin", terms |-> 0, wrap |-> "list", mask |-> s.sh, arrays |-> << >>]
DriftCase(s) == [cls |-> IF Len(s.sz) = 2 THEN "uk" ELSE "uk3d", geo |-> FALSE, sz |-> s.sz, style |-> "grid", backend |-> IF (Volume(s.sh) + Len(s.sh) + s.sh[1]) % 2 = 0 THEN "loop" ELSE "vectorized",
                 win |-> 0, model |-> "builtin", terms |-> 1, wrap |-> "list", mask |-> << >>, arrays |-> << s.sh >>]

(* ------------------------ parameters of variograms ------------------------ *)
Keys == {"slope", "scale", "exponent", "sill", "psill", "range", "nugget"}
Names(m) == CASE m = "linear" -> << "slope", "nugget" >>
              [] m = "power" -> << "scale", "exponent", "nugget" >>
              [] OTHER -> << "psill", "range", "nugget" >>
Sills == {"gaussian", "spherical", "exponential", "hole-effect"}
Builtin == Sills \cup {"linear", "power"}
(* the other settings a dictionary may be given in *)
Required(m) == {Names(m)[i] : i \in 1..Len(Names(m))} \ {"psill"}
DictReasons(m, K) == (IF m = "custom" THEN {"dictionary for a custom model"} ELSE {})
  \cup (IF m \in Builtin /\ ~(Required(m) \subseteq K) THEN {"missing key"} ELSE {})
  \cup (IF m \in Sills /\ K \cap {"sill", "psill"} = {} THEN {"no sill"} ELSE {})
DictOpen(m, K) == m \in Builtin /\ (K \ (Required(m) \cup (IF m \in Sills THEN {"sill", "psill"} ELSE {})) # {} \/ {"sill", "psill"} \subseteq K)
ListReasons(m, n) == IF m \in Builtin /\ n # Len(Names(m)) THEN {"length"} ELSE {}
ParamCases == {[cls |-> c, how |-> h, model |-> m, kind |-> "dict", keys |-> K, len |-> 0] :
                 c \in Classes, h \in {"new", "update"}, m \in Builtin \cup {"custom"}, K \in SUBSET Keys}
              \cup {[cls |-> c, how |-> h, model |-> m, kind |-> "list", keys |-> {}, len |-> n] :
                 c \in Classes, h \in {"new", "update"}, m \in Builtin, n \in 0..5}
              \cup {[cls |-> c, how |-> h, model |-> m, kind |-> k, keys |-> {}, len |-> 0] :
                 c \in Classes, h \in {"new", "update"}, m \in Builtin \cup {"custom"}, k \in {"text", "number", "set", "nothing"}}
ParamVerdict(c) ==
  LET why == CASE c.kind = "dict" -> DictReasons(c.model, c.keys)
               [] c.kind = "list" -> ListReasons(c.model, c.len)
               [] c.kind = "nothing" -> IF c.model = "custom" THEN {"custom model without parameters"} ELSE {}
               [] OTHER -> {"neither list nor dictionary"}
      open == c.kind = "dict" /\ DictOpen(c.model, c.keys)
  IN [verdict |-> IF why # {} THEN "refuse" ELSE IF open THEN "open" ELSE "answer", why |-> why]

(* ------------------------------ constructions ---------------------------- *)
(* lens: numbers of coordinates and values; fn: variogram_function           *)
CtorBase == {[cls |-> c, how |-> h, model |-> m, fn |-> f, ctype |-> "euclidean", ptype |-> "pinv", pinv |-> FALSE, exact |-> "true", short |-> 0] :
               c \in Classes, h \in {"new", "update"},
               m \in Builtin \cup {"custom", "Gaussian", "cubic", "", "none", "number"}, f \in {"none", "callable", "text"}}
CtorMore == {[cls |-> c, how |-> "new", model |-> m, fn |-> "callable", ctype |-> t, ptype |-> p, pinv |-> v, exact |-> e, short |-> s] :
               c \in Classes, m \in {"linear", "custom"},
               t \in {"euclidean", "geographic", "Geographic", "spherical", "none"}, p \in {"pinv", "pinvh", "pinv2", "none"},
               v \in BOOLEAN, e \in {"true", "false", "one", "text", "none"}, s \in -1..4}
CtorCases == CtorBase \cup {c \in CtorMore : (c.ctype # "euclidean" => c.cls = "ok") /\ c.short <= DimOf(c.cls) + 1
                              /\ Cardinality({f \in {"t", "p", "e", "s"} :
                                   CASE f = "t" -> c.ctype # "euclidean" [] f = "p" -> c.ptype # "pinv" [] f = "e" -> c.exact # "true" [] OTHER -> c.short # 0}) <= 2}
CtorReasons(c) ==
     (IF c.model \notin Builtin \cup {"custom"} THEN {"model"} ELSE {})
  \cup (IF c.model = "custom" /\ c.fn # "callable" THEN {"no function"} ELSE {})
  \cup (IF c.ctype \notin {"euclidean", "geographic"} THEN {"coordinates type"} ELSE {})
  \cup (IF c.ptype \notin {"pinv", "pinvh"} THEN {"pseudo-inverse"} ELSE {})
  \cup (IF c.exact \notin {"true", "false"} THEN {"exact values"} ELSE {})
  \cup (IF c.short # 0 THEN {"lengths of the data"} ELSE {})
CtorVerdict(c) == [verdict |-> IF CtorReasons(c) # {} THEN "refuse" ELSE "answer", why |-> CtorReasons(c)]

(* ------------------------------ drift terms ------------------------------ *)
Terms(c) == IF c = "uk" THEN {"regional_linear", "point_log", "external_Z", "specified", "functional"}
            ELSE {"regional_linear", "specified", "functional"}
Foreign == {"quadratic", "Regional_linear", "external_z", "point_log", "external_Z"}
Lists(k, s) == Pick(k, s, << "list", "list", "list", "none", "bare", "tuple", "empty" >>)
DriftPlain(k) ==
  LET cls == Pick(k, 40, << "uk", "uk", "uk", "uk3d" >>)
      t == Terms(cls)
      on(i) == Chance(k, 40 + i, 40)
      T == TLCEval({x \in t : on(CASE x = "regional_linear" -> 1 [] x = "point_log" -> 2 [] x = "external_Z" -> 3 [] x = "specified" -> 4 [] OTHER -> 5)})
      ex == R(k, 50, 3) + 2
      ey == R(k, 51, 3) + 2
  IN [cls |-> cls, terms |-> T,
      ext |-> IF Chance(k, 52, 25) THEN << ex, ey >> ELSE << ey, ex >>, ex |-> ex, ey |-> ey, covers |-> TRUE,
      wells |-> Pick(k, 53, << << 1, 3 >>, << 3 >>, << 2, 3 >>, << 3, 3 >> >>),
      spec |-> [i \in 1..R(k, 54, 2) + 1 |-> N], specwrap |-> "list",
      fun |-> R(k, 55, 2) + 1, funwrap |-> "list"]
DriftSpoil(k, s, c) ==
  LET what == Pick(k, s, << "foreign", "noext", "noaxes", "ext", "ext", "far", "nowells", "wells", "speclist", "speclen", "funlist", "funtype" >>)
  IN CASE what = "foreign" -> [c EXCEPT !.terms = @ \cup {Pick(k, s + 1, << "quadratic", "Regional_linear", "external_z", "point_log", "external_Z" >>)}]
       [] what = "noext" -> [c EXCEPT !.ext = << >>]
       [] what = "noaxes" -> IF Chance(k, s + 2, 50) THEN [c EXCEPT !.ex = 0] ELSE [c EXCEPT !.ey = 0]
       [] what = "ext" -> [c EXCEPT !.ext = Pick(k, s + 3, << << c.ey + 1, c.ex >>, << c.ey, c.ex + 1 >>, << c.ey * c.ex >>, << c.ex + 1, c.ey >>,
                                                             << c.ex, c.ey >>, << c.ey + 2, c.ex + 2 >> >>)]
       [] what = "far" -> [c EXCEPT !.covers = FALSE]
       [] what = "nowells" -> [c EXCEPT !.wells = << >>]
       [] what = "wells" -> [c EXCEPT !.wells = Pick(k, s + 4, << << 2, 2 >>, << 2 >>, << 1, 2 >>, << 2, 4 >>, << 4 >>, << 1, 4 >>, << 3, 2 >> >>)]
       [] what = "speclist" -> [c EXCEPT !.specwrap = Pick(k, s + 5, << "none", "bare", "tuple", "empty" >>)]
       [] what = "speclen" -> [c EXCEPT !.spec[R(k, s + 6, Len(c.spec)) + 1] = Pick(k, s + 7, << N - 1, N + 1, 1, 2 * N >>)]
       [] what = "funlist" -> [c EXCEPT !.funwrap = Pick(k, s + 5, << "none", "bare", "empty" >>)]
       [] OTHER -> [c EXCEPT !.funwrap = "wrong"]
DriftReasons(c) ==
  LET on(t) == t \in c.terms /\ t \in Terms(c.cls)
  IN (IF c.terms \ Terms(c.cls) # {} THEN {"unknown term"} ELSE {})
  \cup (IF on("external_Z") /\ c.ext = << >> THEN {"no drift grid"} ELSE {})
  \cup (IF on("external_Z") /\ (c.ex = 0 \/ c.ey = 0) THEN {"no axes"} ELSE {})
  \cup (IF on("external_Z") /\ c.ext # << >> /\ c.ex * c.ey # 0 /\ c.ext \notin {<< c.ey, c.ex >>, << c.ex, c.ey >>} THEN {"drift grid"} ELSE {})
  \cup (IF on("external_Z") /\ ~c.covers THEN {"data outside the drift grid"} ELSE {})
  \cup (IF on("point_log") /\ c.wells \notin {<< 1, 3 >>, << 3 >>, << 2, 3 >>, << 3, 3 >>} THEN {"wells"} ELSE {})
  \cup (IF on("specified") /\ c.specwrap # "list" THEN {"specified drift not in a list"} ELSE {})
  \cup (IF on("specified") /\ c.specwrap \in {"list", "tuple"} /\ \E i \in 1..Len(c.spec) : c.spec[i] # N THEN {"specified drift"} ELSE {})
  \cup (IF on("functional") /\ c.funwrap # "list" THEN {"functional drift"} ELSE {})
DriftOpen(c) == "specified" \in c.terms /\ c.specwrap = "tuple" /\ DriftReasons(c) = {"specified drift not in a list"}
DriftVerdict(c) == [verdict |-> IF DriftOpen(c) THEN "open" ELSE IF DriftReasons(c) # {} THEN "refuse" ELSE "answer", why |-> DriftReasons(c)]
DriftCtor(k) == LET c == TLCEval(DriftPlain(k))
                    n == Pick(k, 60, << 0, 1, 1, 1, 2 >>)
                    c1 == TLCEval(IF n > 0 THEN DriftSpoil(k, 300, c) ELSE c)
                IN TLCEval(IF n > 1 THEN DriftSpoil(k, 400, c1) ELSE c1)

(* ---------------------- cells outside the drift grid ---------------------- *)
(* ax, ay: axes of the external drift as listed; xs, ys: locations, counted   *)
(* in millionths of the unit of the axes; a location may be used when it lies *)
(* within the axes, however little it misses them by, and excluded cells are  *)
(* not used                                                                   *)
Unit == 1000000
Least(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
Most(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]
Axis(k, s) == LET n == R(k, s, 3) + 2
                  a == R(k, s + 1, 2)
                  up == [i \in 1..n |-> a + (i - 1) * 2 + (IF i = n THEN R(k, s + 2, 2) ELSE 0)]
              IN TLCEval(CASE R(k, s + 3, 4) = 0 -> Rev(up)
                           [] R(k, s + 3, 4) = 1 -> [i \in 1..n |-> up[((i + 0) % n) + 1]]
                           [] OTHER -> up)
Place(k, s, a) == LET lo == Least(a)  hi == Most(a)
                      near == Pick(k, s + 5, << 1, 1000, 5000, 9000, 15000, 40000 >>)
                  IN CASE Chance(k, s, 3) -> Unit * Pick(k, s + 1, << lo - 1, hi + 1 >>)
                       [] Chance(k, s + 6, 6) -> Pick(k, s + 1, << Unit * lo - near, Unit * hi + near >>)
                       [] Chance(k, s + 7, 10) -> Pick(k, s + 1, << Unit * lo + near, Unit * hi - near >>)
                       [] Chance(k, s + 2, 30) -> Unit * Pick(k, s + 3, << lo, hi >>)
                       [] OTHER -> Unit * (lo + R(k, s + 4, hi - lo + 1))
CoverCase(k) ==
  LET style == Pick(k, 1, << "grid", "masked", "masked", "points" >>)
      ax == Axis(k, 10)
      ay == Axis(k, 20)
      nx == R(k, 2, 3) + 1
      ny == IF style = "points" THEN nx ELSE R(k, 3, 3) + 1
      xs == TLCEval([i \in 1..nx |-> Place(k, 30 + 7 * i, ax)])
      ys == TLCEval([i \in 1..ny |-> Place(k, 60 + 7 * i, ay)])
      out(i, j) == xs[i] < Unit * Least(ax) \/ xs[i] > Unit * Most(ax) \/ ys[j] < Unit * Least(ay) \/ ys[j] > Unit * Most(ay)
  IN [ax |-> ax, ay |-> ay, style |-> style, xs |-> xs, ys |-> ys, backend |-> Pick(k, 4, << "vectorized", "loop" >>),
      mask |-> TLCEval(IF style = "masked" THEN [j \in 1..ny |-> [i \in 1..nx |-> IF out(i, j) /\ Chance(k, 5, 70) THEN 1 ELSE IF Chance(k, 100 + 9 * i + j, 25) THEN 1 ELSE 0]]
               ELSE << >>)]
CoverReasons(c) ==
  LET outx(x) == x < Unit * Least(c.ax) \/ x > Unit * Most(c.ax)
      outy(y) == y < Unit * Least(c.ay) \/ y > Unit * Most(c.ay)
  IN IF CASE c.style = "points" -> \E i \in 1..Len(c.xs) : outx(c.xs[i]) \/ outy(c.ys[i])
          [] c.style = "grid"   -> \E i \in 1..Len(c.xs), j \in 1..Len(c.ys) : outx(c.xs[i]) \/ outy(c.ys[j])
          [] OTHER              -> \E i \in 1..Len(c.xs), j \in 1..Len(c.ys) : c.mask[j][i] = 0 /\ (outx(c.xs[i]) \/ outy(c.ys[j]))
     THEN {"outside the drift grid"} ELSE {}
CoverVerdict(c) == [verdict |-> IF CoverReasons(c) # {} THEN "refuse" ELSE "answer", why |-> CoverReasons(c)]

(* ---------------------------- GSTools models ----------------------------- *)
GsCases == {[cls |-> c, how |-> h, dim |-> d, latlon |-> l, ctype |-> t, real |-> r] :
              c \in Classes, h \in {"new", "update", "again"}, d \in 1..3, l \in BOOLEAN, t \in {"euclidean", "geographic"}, r \in BOOLEAN}
GsField(c) == IF c.latlon THEN 2 ELSE c.dim
GsReasons(c) == (IF ~c.real THEN {"not a covariance model"} ELSE {})
  \cup (IF c.cls \in Deep /\ GsField(c) # 3 THEN {"dimension"} ELSE {})
  \cup (IF c.cls \in Flat /\ GsField(c) = 3 THEN {"dimension"} ELSE {})
  \cup (IF c.latlon /\ c.ctype = "euclidean" THEN {"latlon"} ELSE {})
GsVerdict(c) == [verdict |-> IF GsReasons(c) # {} THEN "refuse" ELSE IF ~c.latlon /\ (c.dim = 1 \/ c.ctype = "geographic") THEN "open" ELSE "answer",
                 why |-> GsReasons(c)]

(* ---------------------------- the sklearn layer --------------------------- *)
SkCases == {[what |-> "method", method |-> m, cols |-> 2, ask |-> 2, fitted |-> TRUE, model |-> ""] :
              m \in {"ordinary", "universal", "ordinary3d", "universal3d", "Ordinary", "simple", "", "none"}}
           \cup {[what |-> "fit", method |-> m, cols |-> n, ask |-> q, fitted |-> f, model |-> ""] :
              m \in {"ordinary", "universal", "ordinary3d", "universal3d"}, n \in 1..4, q \in 1..4, f \in BOOLEAN}
           \cup {[what |-> w, method |-> m, cols |-> 2, ask |-> 2, fitted |-> TRUE, model |-> s] :
              w \in {"rk", "ck"}, m \in {"ordinary", "universal", "simple"}, s \in {"regressor", "classifier", "transformer", "class", "none", "text"}}
SkDim(m) == IF m \in {"ordinary3d", "universal3d"} THEN 3 ELSE 2
SkKnown == {"ordinary", "universal", "ordinary3d", "universal3d"}
SkReasons(c) == (IF c.method \notin SkKnown THEN {"method"} ELSE {})
  \cup (IF c.what = "fit" /\ c.fitted /\ c.cols # SkDim(c.method) THEN {"dimension of the data"} ELSE {})
  \cup (IF c.what = "fit" /\ ~c.fitted THEN {"not fitted"} ELSE {})
  \cup (IF c.what = "fit" /\ c.ask # SkDim(c.method) THEN {"dimension of the points"} ELSE {})
  \cup (IF c.what = "rk" /\ c.model \notin {"regressor", "none"} THEN {"not a regressor"} ELSE {})
  \cup (IF c.what = "ck" /\ c.model \notin {"classifier", "none"} THEN {"not a classifier"} ELSE {})
SkVerdict(c) == [verdict |-> IF SkReasons(c) # {} THEN "refuse" ELSE IF c.what = "ck" /\ c.model = "none" THEN "open" ELSE "answer", why |-> SkReasons(c)]

(* -------------------------------------------------------------------------- *)
Cases == CASE Table = "shapes" -> ShapeCases
           [] Table = "mask"   -> {MaskCase(s, c) : s \in ShapeCases, c \in {"ok", "uk"}}
           [] Table = "array"  -> {DriftCase(s) : s \in ShapeCases}
           [] Table = "params" -> ParamCases
           [] Table = "ctor"   -> CtorCases
           [] Table = "gs"     -> GsCases
           [] Table = "sk"     -> SkCases
           [] OTHER            -> {}
Judge(c) == CASE Table \in {"mask", "array", "request"} -> RequestVerdict(c)
              [] Table = "params" -> ParamVerdict(c)
              [] Table = "ctor"   -> CtorVerdict(c)
              [] Table = "drift"  -> DriftVerdict(c)
              [] Table = "cover"  -> CoverVerdict(c)
              [] Table = "gs"     -> GsVerdict(c)
              [] Table = "sk"     -> SkVerdict(c)

Init == /\ done = 0
        /\ IF Table \in {"request", "drift", "cover"}
           THEN \E k \in Lo..Hi : case = [k |-> k]
           ELSE case \in Cases
Drawn == CASE Table = "request" -> RequestCase(case.k) [] Table = "drift" -> DriftCtor(case.k) [] Table = "cover" -> CoverCase(case.k) [] OTHER -> case
Next == /\ Mode = "emit"
        /\ done = 0
        /\ done' = 1
        /\ UNCHANGED case
        /\ LET c == TLCEval(Drawn) IN PrintT("@@" \o ToJson([case |-> c, want |-> Judge(c)]))
Spec == Init /\ [][Next]_vars
=============================================================================
