----------------------------- MODULE GridFiles ------------------------------
(* Grid files on disk: what write_asc_grid and write_zmap_grid leave there,  *)
(* and what read_asc_grid and read_zmap_grid make of a file.                 *)
(*                                                                           *)
(* A file is a sequence of lines of tokens.  Lengths are integers in units   *)
(* of 1/2000 (half thousandths); cell values are decimals m * 10^e.  Writing *)
(* rounds to the digits of the format; reading a written file gives the grid *)
(* back up to that rounding.  Behaviour: histories of writes, refused        *)
(* writes, files authored elsewhere, and reads on two file names.            *)
EXTENDS Integers, Sequences, TLC, Choice, Json
CONSTANTS Lo, Hi,
          Ops     \* "asc", "zmap" or "refuse": what the histories dwell on

Names == << "a", "b" >>
Steps == 6

VARIABLES no,     \* number of the history
          l,      \* step
          files,  \* name -> [fmt, text, grid]; text = <<>> where there is no file
          ev      \* the step just taken, with what it has to observe
vars == << no, l, files, ev >>

Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
(* to the nearest multiple of p; never used on ties *)
Nearest(a, p) == IF a >= 0 THEN ((a + p \div 2) \div p) * p ELSE -(((-a + p \div 2) \div p) * p)

(* ------------------------------- decimals -------------------------------- *)
(* [m, e]: m * 10^e;  kept to d decimals                                     *)
Round(v, d) == IF v.e >= -d THEN v
               ELSE LET p == Pow10(-d - v.e) IN [m |-> Nearest(v.m, p) \div p, e |-> -d]
RECURSIVE Len10(_)
Len10(m) == IF m < 10 THEN 1 ELSE 1 + Len10(m \div 10)
Signif(v, d) == LET n == Len10(Abs(v.m)) IN
                IF n <= d THEN v ELSE LET p == Pow10(n - d) IN [m |-> Nearest(v.m, p) \div p, e |-> v.e + n - d]
(* one million or more *)
Big(v) == v.m # 0 /\ Len10(Abs(v.m)) + v.e >= 7
(* half a unit of the last digit kept, as [m, e]; zero when nothing is lost  *)
Lost(v, w) == IF w = v THEN [m |-> 0, e |-> 0] ELSE [m |-> 5, e |-> w.e - 1]
ZRound(v) == IF Big(v) THEN Signif(v, 8) ELSE Round(v, 4)

(* -------------------------------- grids ---------------------------------- *)
(* grid: nx, ny, x0, y0, dx, dy (lengths), rows: ny sequences of nx cells    *)
(* from the lowest y upwards; a cell is a decimal or a hole                  *)
Hole == [m |-> 0, e |-> 99]
IsHole(c) == c.e = 99

Row(g, j) == g.rows[j]

(* hundredths of a unit are 20 half thousandths *)
Cents(a) == Nearest(a, 20)
CSlack(a) == IF a % 20 = 0 THEN 0 ELSE 10

Num(a) == [num |-> a]                 \* a length
Key(k) == [key |-> k]
Dec(v) == [dec |-> v]                 \* a decimal
Int0(n) == [int |-> n]

AscText(g, style) ==
  << << Key("NCOLS"), Int0(g.nx) >>, << Key("NROWS"), Int0(g.ny) >> >>
  \o (IF style = 1
        THEN << << Key("XLLCENTER"), Num(Cents(g.x0)) >>, << Key("YLLCENTER"), Num(Cents(g.y0)) >>,
                << Key("DX"), Num(Cents(g.dx)) >>, << Key("DY"), Num(Cents(g.dy)) >> >>
        ELSE << << Key("XLLCORNER"), Num(Cents(g.x0 - g.dx \div 2)) >>, << Key("YLLCORNER"), Num(Cents(g.y0 - g.dy \div 2)) >>,
                << Key("CELLSIZE"), Num(Cents(g.dx)) >> >>)
  \o << << Key("NODATA_VALUE"), Dec(Round(g.nodata, 2)) >> >>
  \o [j \in 1..g.ny |-> [i \in 1..g.nx |->
        LET c == Row(g, g.ny + 1 - j)[i] IN Dec(Round(IF IsHole(c) THEN g.nodata ELSE c, 2))]]

(* the body of a zmap file: column by column from the left, each from the    *)
(* top, five values per line, a new line for every column                    *)
Column(g, i) == [j \in 1..g.ny |-> LET c == Row(g, g.ny + 1 - j)[i] IN
                   Dec(IF IsHole(c) THEN (IF g.nan THEN Signif(g.nodata, 8) ELSE ZRound(g.nodata)) ELSE ZRound(c))]
RECURSIVE Chunks(_)
Chunks(s) == IF Len(s) <= 5 THEN << s >> ELSE << SubSeq(s, 1, 5) >> \o Chunks(SubSeq(s, 6, Len(s)))
RECURSIVE Columns(_, _)
Columns(g, i) == IF i > g.nx THEN <<>> ELSE Chunks(Column(g, i)) \o Columns(g, i + 1)
ZmapText(g, crs) ==
  << << Key("CRS"), Key(crs) >>,
     << Key("NODATA"), Dec(g.nodata) >>,
     << Key("SIZE"), Int0(g.ny), Int0(g.nx), Num(g.x0), Num(g.x0 + (g.nx - 1) * g.dx), Num(g.y0), Num(g.y0 + (g.ny - 1) * g.dy) >> >>
  \o Columns(g, 1)

(* ------------------------------- reading --------------------------------- *)
Header(text, n) == SubSeq(text, 1, n)
Has(h, k) == \E t \in DOMAIN h : h[t][1].key = k
Val(h, k) == LET t == CHOOSE t \in DOMAIN h : h[t][1].key = k IN h[t][2]
ReadAsc(f) ==
  LET h == Header(f.text, f.head)
      nx == Val(h, "NCOLS").int
      ny == Val(h, "NROWS").int
      dx == IF Has(h, "DX") THEN Val(h, "DX").num ELSE IF Has(h, "CELLSIZE") THEN Val(h, "CELLSIZE").num ELSE Val(h, "CELL_SIZE").num
      dy == IF Has(h, "DY") THEN Val(h, "DY").num ELSE dx
      x0 == IF Has(h, "XLLCORNER") THEN Val(h, "XLLCORNER").num + dx \div 2 ELSE Val(h, "XLLCENTER").num
      y0 == IF Has(h, "YLLCORNER") THEN Val(h, "YLLCORNER").num + dy \div 2 ELSE Val(h, "YLLCENTER").num
      nd == IF Has(h, "NODATA_VALUE") THEN Val(h, "NODATA_VALUE").dec ELSE Val(h, "NODATAVALUE").dec
  IN [nx |-> nx, ny |-> ny, dx |-> dx, dy |-> dy, x0 |-> x0, y0 |-> y0, nodata |-> nd,
      pair |-> Has(h, "DX"), crs |-> "",
      rows |-> [j \in 1..ny |-> [i \in 1..nx |-> f.text[f.head + ny + 1 - j][i].dec]]]

RECURSIVE Flatten(_, _)
Flatten(s, t) == IF t > Len(s) THEN <<>> ELSE s[t] \o Flatten(s, t + 1)
ReadZmap(f) ==
  LET z == f.text[3]
      ny == z[2].int
      nx == z[3].int
      body == TLCEval(Flatten(f.text, 4))
  IN [nx |-> nx, ny |-> ny, x0 |-> z[4].num, y0 |-> z[6].num,
      dx |-> (z[5].num - z[4].num) \div (nx - 1), dy |-> (z[7].num - z[6].num) \div (ny - 1),
      nodata |-> f.text[2][2].dec, pair |-> TRUE, crs |-> f.text[1][2].key,
      rows |-> [j \in 1..ny |-> [i \in 1..nx |-> body[(i - 1) * ny + (ny + 1 - j)].dec]]]
(* the body holds what the header announces *)
Whole(f) == IF f.fmt = "asc"
              THEN LET h == Header(f.text, f.head) IN
                   /\ Len(f.text) - f.head = Val(h, "NROWS").int
                   /\ \A t \in (f.head + 1)..Len(f.text) : Len(f.text[t]) = Val(h, "NCOLS").int
              ELSE Len(Flatten(f.text, 4)) = f.text[3][2].int * f.text[3][3].int
Read(f) == IF ~Whole(f) THEN [refused |-> TRUE] ELSE IF f.fmt = "asc" THEN ReadAsc(f) ELSE ReadZmap(f)

(* --------------------------- what is generated --------------------------- *)
K(k, t) == k * 8 + t
Len2(k, t, x) == Pick(K(k, t), x, << 2, 2, 3, 3, 4, 5, 6, 7, 9, 10, 11 >>)
(* lengths in half thousandths, free of ties when rounded to hundredths *)
Place(k, t, x) == CASE Chance(K(k, t), x, 60) -> 20 * (R(K(k, t), x + 1, 40001) - 20000)
                    [] OTHER -> 20 * (R(K(k, t), x + 1, 4001) - 2000) + Pick(K(k, t), x + 2, << -8, -4, 4, 8 >>)
Step(k, t, x) == CASE Chance(K(k, t), x, 70) -> 40 * (R(K(k, t), x + 1, 3000) + 1)
                   [] Chance(K(k, t), x + 3, 60) -> 20 * (R(K(k, t), x + 1, 200) + 1) * 2 + 4
                   [] OTHER -> Pick(K(k, t), x + 2, << 20, 2000, 2000000, 60, 500 >>)
Value(k, t, x) ==
  LET h == TLCEval(H(K(k, t), x))
      u == TLCEval(H(K(k, t), x + 1))
      c == h % 7
      d == (h \div 7) % 90
  IN CASE c \in {0, 1} -> [m |-> (u % 2001) - 1000, e |-> 0]
       [] c \in {2, 3} -> [m |-> (u % 40001) - 20000, e |-> -2]
       [] c = 4 -> [m |-> ((u % 40001) - 20000) * 10 + << 1, 3, 4, 6, 8 >>[(d % 5) + 1], e |-> -4 + (d % 3)]
       [] c = 5 -> [m |-> ((u % 40001) + 1000) * (IF d % 2 = 0 THEN 1 ELSE -1), e |-> d % 18]
       [] OTHER -> [m |-> ((u % 40001) + 10000) * 10001 + 3, e |-> (d % 9) - 2]
NoData(k, t) == Pick(K(k, t), 7, << [m |-> -999, e |-> 0], [m |-> -9999, e |-> 0], [m |-> 0, e |-> 0], [m |-> 1, e |-> 30],
                                    [m |-> -125, e |-> -2], [m |-> 99999, e |-> 0],
                                    [m |-> -999975, e |-> -2], [m |-> 1234567, e |-> 0] >>)
(* how holes are given: masked or NaN (the asc format knows masks only) *)
Grid(k, t, zmap, style) ==
  LET nx == Len2(k, t, 11)
      ny == Len2(k, t, 12)
      d == Step(k, t, 13)
      holes == Pick(K(k, t), 19, << 0, 0, 15, 40, 100 >>)
      hole(i, j) == holes # 0 /\ Chance(K(k, t), 5000 + 40 * i + j, holes)
      \* corners must not lie half-way between two hundredths
      off(p) == IF style = 2 /\ Abs(p - d \div 2) % 20 = 10 THEN p + 4 ELSE p
  IN [nx |-> nx, ny |-> ny, x0 |-> off(Place(k, t, 21)), y0 |-> off(Place(k, t, 25)),
      dx |-> d, dy |-> IF style = 2 \/ Chance(K(k, t), 20, 30) THEN d ELSE Step(k, t, 31),
      nodata |-> NoData(k, t), nan |-> zmap /\ Chance(K(k, t), 18, 40),
      rows |-> TLCEval([j \in 1..ny |-> TLCEval([i \in 1..nx |-> IF hole(i, j) THEN Hole ELSE Value(k, t, 100 + 400 * i + 20 * j)])])]
Op(k, t) == Pick(K(k, t), 1,
  CASE Ops = "asc" -> << "asc", "asc", "asc", "asc", "author", "author", "author", "refuse", "read", "zmap", "damage" >>
    [] Ops = "zmap" -> << "zmap", "zmap", "zmap", "zmap", "zmap", "zmap", "authorz", "authorz", "refuse", "read", "asc", "damage" >>
    [] OTHER -> << "asc", "zmap", "author", "authorz", "refuse", "refuse", "refuse", "refuse", "read", "damage" >>)
File(k, t) == Pick(K(k, t), 2, Names)
Crs(k, t) == Pick(K(k, t), 3, << "<null>", "EPSG:32632", "UTM zone 32 north: WGS 84", "a, b : c ! @ 7" >>)
NoFile == [fmt |-> "", text |-> <<>>, head |-> 0]
Stored(c) == TLCEval([c EXCEPT !.got = Read(c)])

(* a file made by other programs: any header form *)
Authored(k, t) ==
  LET c == K(k, t)
      cell == Pick(c, 41, << "CELLSIZE", "CELL_SIZE", "DXDY" >>)
      g1 == Grid(k, t, FALSE, IF cell = "DXDY" THEN 1 ELSE 2)
      \* a single row or column is a grid, too
      one == Pick(c, 49, << 0, 0, 0, 1, 2, 3 >>)
      nx == IF one \in {1, 3} THEN 1 ELSE g1.nx
      ny == IF one \in {2, 3} THEN 1 ELSE g1.ny
      g0 == [g1 EXCEPT !.nx = nx, !.ny = ny, !.rows = [j \in 1..ny |-> [i \in 1..nx |-> @[j][i]]]]
      g == [g0 EXCEPT !.x0 = Cents(@), !.y0 = Cents(@), !.dx = 2 * Cents(@), !.dy = 2 * Cents(@)]
      lines == << << Key("NCOLS"), Int0(g.nx) >>, << Key("NROWS"), Int0(g.ny) >> >>
               \o (IF Chance(c, 42, 50) THEN << << Key("XLLCENTER"), Num(g.x0) >>, << Key("YLLCENTER"), Num(g.y0) >> >>
                   ELSE << << Key("XLLCORNER"), Num(g.x0 - g.dx \div 2) >>, << Key("YLLCORNER"), Num(g.y0 - g.dy \div 2) >> >>)
               \o (IF cell = "DXDY" THEN << << Key("DX"), Num(g.dx) >>, << Key("DY"), Num(g.dy) >> >>
                   ELSE << << Key(cell), Num(g.dx) >> >>)
               \o << << Key(Pick(c, 43, << "NODATA_VALUE", "NODATAVALUE" >>)), Dec(g.nodata) >> >>
      \* header lines in any order: rotated, and perhaps reversed
      n == Len(lines)
      turn == R(c, 44, n)
      rot == [i \in 1..n |-> lines[((i - 1 + turn) % n) + 1]]
      head == IF Chance(c, 45, 40) THEN [i \in 1..n |-> rot[n + 1 - i]] ELSE IF Chance(c, 46, 40) THEN lines ELSE rot
      body == [j \in 1..g.ny |-> [i \in 1..g.nx |-> LET v == Row(g, g.ny + 1 - j)[i] IN Dec(IF IsHole(v) THEN g.nodata ELSE v)]]
  IN [op |-> "author", file |-> File(k, t), grid |-> g, text |-> head \o body, head |-> n,
      case |-> R(c, 47, 4), footer |-> Pick(c, 48, << 0, 0, 1, 2 >>)]

(* a zmap file made by another program: any number of values in a line, and   *)
(* lines that do not end with a column                                       *)
RECURSIVE Wrapped(_, _)
Wrapped(s, w) == IF Len(s) <= w THEN << s >> ELSE << SubSeq(s, 1, w) >> \o Wrapped(SubSeq(s, w + 1, Len(s)), w)
AuthoredZ(k, t) ==
  LET c == K(k, t)
      g0 == Grid(k, t, TRUE, 1)
      g == [g0 EXCEPT !.x0 = Cents(@), !.y0 = Cents(@)]
      cells == TLCEval(Flatten([n \in 1..g.nx |-> [j \in 1..g.ny |->
                 LET v == Row(g, g.ny + 1 - j)[n] IN Dec(IF IsHole(v) THEN g.nodata ELSE v)]], 1))
      crs == IF Chance(c, 51, 40) THEN "<null>" ELSE Crs(k, t)
  IN [op |-> "authorz", file |-> File(k, t), grid |-> g, crs |-> crs, comment |-> crs # "<null>" \/ Chance(c, 52, 50),
      head |-> 3, text |-> SubSeq(ZmapText(g, crs), 1, 3) \o Wrapped(cells, R(c, 53, 7) + 1)]
(* a body that lost or gained something at its end *)
Damaged(f, how) ==
  LET n == Len(f.text)
      last == f.text[n]
      but == SubSeq(f.text, 1, n - 1)
  IN CASE how = "cut" -> IF Len(last) = 1 THEN but ELSE but \o << SubSeq(last, 1, Len(last) - 1) >>
       [] how = "grow" -> but \o << Append(last, Dec([m |-> 7, e |-> 0])) >>
       [] how = "drop" -> but
       [] OTHER -> Append(f.text, last)

Written(k, t, zmap) ==
  LET style == IF zmap THEN 1 ELSE Pick(K(k, t), 4, << 1, 1, 2 >>)
      g == Grid(k, t, zmap, style)
  IN [op |-> IF zmap THEN "zmap" ELSE "asc", file |-> File(k, t), grid |-> g, style |-> style, crs |-> IF zmap THEN Crs(k, t) ELSE ""]

(* refused: axes with an irregularity, unknown style, cells that are not     *)
(* square, values that are not a grid                                        *)
Refused(k, t) ==
  LET g0 == Grid(k, t, FALSE, 1)
      g == [g0 EXCEPT !.nx = IF @ < 4 THEN 4 ELSE @, !.ny = IF @ < 4 THEN 4 ELSE @, !.dy = IF @ = g0.dx THEN 2 * @ ELSE @, !.rows = <<>>]
  IN [op |-> "refuse", file |-> File(k, t), grid |-> g,
      why |-> Pick(K(k, t), 50,
                (IF Ops = "zmap" THEN <<>> ELSE << "bent x", "bent y", "bent middle", "style", "square", "flat" >>)
                \o (IF Ops = "asc" THEN <<>> ELSE << "zbent x", "zbent y", "zbent middle", "zflat" >>))]

Planned(k, t) ==
  LET o == Op(k, t) IN
  CASE o = "asc" -> Written(k, t, FALSE)
    [] o = "zmap" -> Written(k, t, TRUE)
    [] o = "author" -> Authored(k, t)
    [] o = "authorz" -> AuthoredZ(k, t)
    [] o = "damage" -> [op |-> "damage", file |-> File(k, t), how |-> Pick(K(k, t), 5, << "cut", "grow", "drop", "repeat" >>)]
    [] o = "refuse" -> Refused(k, t)
    [] OTHER -> [op |-> "read", file |-> File(k, t)]
(* all histories: what is attempted in step t of history k *)
Plan == [k \in Lo..Hi |-> [t \in 1..Steps |-> Planned(k, t)]]

(* ------------------------------ the actions ------------------------------ *)
Init == /\ no \in Lo..Hi /\ l = 1
        /\ files = [n \in {"a", "b"} |-> NoFile]
        /\ ev = [op |-> "start"]

Store(f, fmt, text, head) ==
  files' = [files EXCEPT ![f] = Stored([fmt |-> fmt, text |-> text, head |-> head, got |-> <<>>])]
WriteAsc(p) ==
  /\ p.op = "asc"
  /\ Store(p.file, "asc", AscText(p.grid, p.style), IF p.style = 1 THEN 7 ELSE 6)
  /\ ev' = p @@ [text |-> files'[p.file].text, head |-> files'[p.file].head]
WriteZmap(p) ==
  /\ p.op = "zmap"
  /\ Store(p.file, "zmap", ZmapText(p.grid, p.crs), 3)
  /\ ev' = p @@ [text |-> files'[p.file].text, head |-> 3]
Author(p) ==
  /\ p.op = "author"
  /\ Store(p.file, "asc", p.text, p.head)
  /\ ev' = p
AuthorZ(p) ==
  /\ p.op = "authorz"
  /\ Store(p.file, "zmap", p.text, 3)
  /\ ev' = p
Damage(p) ==
  /\ p.op = "damage" /\ files[p.file].text # <<>> /\ Whole(files[p.file])
  /\ Store(p.file, files[p.file].fmt, Damaged(files[p.file], p.how), files[p.file].head)
  /\ ev' = p
Refuse(p) == p.op = "refuse" /\ UNCHANGED files /\ ev' = p
DoRead(f) ==
  /\ files[f].text # <<>>
  /\ UNCHANGED files
  /\ ev' = [op |-> "read", file |-> f, got |-> files[f].got, fmt |-> files[f].fmt, whole |-> Whole(files[f])]
(* nothing to read, nothing to damage *)
Void(f) == files[f].text = <<>>
Spoilt(f) == IF Void(f) THEN TRUE ELSE ~Whole(files[f])
Idle(p) == (IF p.op = "read" THEN Void(p.file) ELSE p.op = "damage" /\ Spoilt(p.file)) /\ UNCHANGED files /\ ev' = [op |-> "pass"]
Chosen(p) == WriteAsc(p) \/ WriteZmap(p) \/ Author(p) \/ AuthorZ(p) \/ Damage(p) \/ Refuse(p) \/ (p.op = "read" /\ DoRead(p.file)) \/ Idle(p)
(* files just written or authored, and those a refused write named, are read next *)
Due == ev.op \in {"asc", "zmap", "author", "authorz", "damage", "refuse"} /\ files[ev.file].text # <<>>
Next == \/ Due /\ DoRead(ev.file) /\ UNCHANGED << no, l >>
        \/ ~Due /\ l <= Steps /\ Chosen(Plan[no][l]) /\ l' = l + 1 /\ UNCHANGED no
Spec == Init /\ [][Next]_vars
View == << no, l, ev.op >>

(* ------------------------------ obligations ------------------------------ *)
(* what is read back is what was written, as far as the digits carry it      *)
Within(a, b, s) == Abs(a - b) <= s
DecNear(c, v, w) == \* v read, w the cell as given
  v = w \/ (w.e < v.e /\ v.e - w.e <= 7 /\ Abs(w.m) < 1000000000
            /\ LET p == Pow10(v.e - w.e) IN 2 * Abs(w.m - v.m * p) <= p)
SlackX(g, style, i) == IF style = 1 THEN CSlack(g.x0) + i * CSlack(g.dx)
                       ELSE CSlack(g.x0 - g.dx \div 2) + CSlack(g.dx) \div 2 + i * CSlack(g.dx)
SlackY(g, style, i) == IF style = 1 THEN CSlack(g.y0) + i * CSlack(g.dy)
                       ELSE CSlack(g.y0 - g.dy \div 2) + CSlack(g.dy) \div 2 + i * CSlack(g.dy)
RoundTrip ==
  ev.op \in {"asc", "zmap", "author", "authorz"} =>
    LET g == ev.grid
        r == files[ev.file].got
        style == IF ev.op = "asc" THEN ev.style ELSE 0
    IN /\ r.nx = g.nx /\ r.ny = g.ny
       /\ \A i \in 0..(g.nx - 1) : Within(r.x0 + i * r.dx, g.x0 + i * g.dx, IF style = 0 THEN 0 ELSE SlackX(g, style, i))
       /\ \A i \in 0..(g.ny - 1) : Within(r.y0 + i * r.dy, g.y0 + i * g.dy, IF style = 0 THEN 0 ELSE SlackY(g, style, i))
       /\ r.nodata = g.nodata
       /\ \A j \in 1..g.ny : \A i \in 1..g.nx :
            IF IsHole(g.rows[j][i]) THEN r.rows[j][i] = g.nodata
            ELSE DecNear(0, r.rows[j][i], g.rows[j][i])
       /\ (ev.op \in {"zmap", "authorz"} => r.crs = ev.crs)
(* a body that does not match its header is never taken for a grid *)
DamageNoticed == ev.op = "damage" => files[ev.file].got = [refused |-> TRUE]
(* a refused write leaves every file as it was; a write touches one file *)
OneFile == [][\A n \in {"a", "b"} : files'[n] # files[n] => ev'.op \in {"asc", "zmap", "author", "authorz", "damage"} /\ ev'.file = n]_vars

Emit == ev.op # "start" => PrintT("@@" \o ToJson([no |-> no, l |-> TLCGet("level"), ev |-> ev]))
=============================================================================
