-------------------------------- MODULE Ply --------------------------------
(***************************************************************************)
(* What a PLY file denotes.  A header is a sequence of lines, a line a       *)
(* sequence of tokens; the body is given as cells[e][r][p], the value of     *)
(* property p of row r of the e-th element, written in the type, order and   *)
(* byte order the header declares (lists are written empty).                 *)
(***************************************************************************)
EXTENDS Layout, SequencesExt
Cod == INSTANCE Codec

NUMS == [s \in {ToString(i) : i \in 0..999} |-> CHOOSE i \in 0..999 : ToString(i) = s]
NumOf(s) == IF s \in DOMAIN NUMS THEN NUMS[s] ELSE -1

Informational(l) == l # <<>> /\ l[1] \in {"comment", "obj_info"}
FLOATS == {"float", "float32"}
WORDS == {"uint", "uint32"}
BYTES == {"uchar", "uint8"}
TYPES == {"char", "int8", "short", "int16", "ushort", "uint16", "int", "int32", "double", "float64"}
         \cup FLOATS \cup WORDS \cup BYTES

(* reading the lines one by one: [ok, fmt, els, ended] *)
ReadLine(s, l) ==
  IF s.ended THEN [s EXCEPT !.ok = FALSE]
  ELSE IF l = <<>> \/ Informational(l) THEN s
  ELSE IF l[1] = "format" THEN
    IF Len(l) = 3 /\ s.fmt = "" /\ s.els = <<>> THEN [s EXCEPT !.fmt = l[2]] ELSE [s EXCEPT !.ok = FALSE]
  ELSE IF l[1] = "element" THEN
    IF Len(l) = 3 /\ NumOf(l[3]) >= 0 /\ \A e \in 1..Len(s.els) : s.els[e].name # l[2]
    THEN [s EXCEPT !.els = Append(@, [name |-> l[2], count |-> NumOf(l[3]), props |-> <<>>])]
    ELSE [s EXCEPT !.ok = FALSE]
  ELSE IF l[1] = "property" THEN
    IF s.els = <<>> \/ ~((Len(l) = 3 /\ l[2] \in TYPES) \/ (Len(l) = 5 /\ l[2] = "list" /\ l[3] \in TYPES /\ l[4] \in TYPES))
    THEN [s EXCEPT !.ok = FALSE]
    ELSE LET pr == IF Len(l) = 3 THEN [type |-> l[2], name |-> l[3]] ELSE [type |-> "list", name |-> l[5]]
             e == Len(s.els)
         IN IF \E q \in 1..Len(s.els[e].props) : s.els[e].props[q].name = pr.name
            THEN [s EXCEPT !.ok = FALSE]
            ELSE [s EXCEPT !.els[e].props = Append(@, pr)]
  ELSE IF l = <<"end_header">> THEN [s EXCEPT !.ended = TRUE]
  ELSE s      \* a line with an unknown keyword says nothing (a reader may refuse it)

Parsed(h) ==
  LET s == FoldLeft(ReadLine, [ok |-> TRUE, fmt |-> "", els |-> <<>>, ended |-> FALSE], IF h = <<>> THEN h ELSE Tail(h))
  IN [s EXCEPT !.ok = @ /\ h # <<>> /\ h[1] = <<"ply">> /\ s.ended
                        /\ s.fmt \in {"binary_little_endian", "binary_big_endian", "ascii"}]

ElemIx(p, nm) == IF \E e \in 1..Len(p.els) : p.els[e].name = nm THEN CHOOSE e \in 1..Len(p.els) : p.els[e].name = nm ELSE 0
PropIx(el, nm) == IF \E q \in 1..Len(el.props) : el.props[q].name = nm
                  THEN CHOOSE q \in 1..Len(el.props) : el.props[q].name = nm ELSE 0
Has(el, nm, ts) == LET q == PropIx(el, nm) IN q > 0 /\ el.props[q].type \in ts

(* number of f_rest properties, and whether they are f_rest_0..f_rest_(m-1) *)
IsRest(nm) == nm \in {"f_rest_" \o ToString(i) : i \in 0..60}
RestCount(el) == Cardinality({q \in 1..Len(el.props) : IsRest(el.props[q].name)})
DegOf(m) == IF m = 0 THEN 0 ELSE IF m = 9 THEN 1 ELSE IF m = 24 THEN 2 ELSE IF m = 45 THEN 3 ELSE -1
Scalars == TYPES

(* uncompressed: every standard property stands somewhere in the vertex element *)
UncDegree(p) ==
  LET e == ElemIx(p, "vertex") IN
  IF ~p.ok \/ e = 0 THEN -1
  ELSE LET el == p.els[e] d == DegOf(RestCount(el)) IN
       IF d = -1 \/ \E c \in 1..Width(d) : ~Has(el, Names(d)[c], Scalars) THEN -1 ELSE d
UncScene(p, cells, d) ==
  LET e == ElemIx(p, "vertex") el == p.els[e] IN
  [r \in 1..el.count |-> [f \in Fields |-> [i \in 1..FieldSize(d, f) |->
      LET c == CHOOSE c \in 1..Width(d) : At(d, c) = <<f, i>> IN cells[e][r][PropIx(el, Names(d)[c])]]]]

(* compressed *)
CompOk(p) ==
  LET ec == ElemIx(p, "chunk") ev == ElemIx(p, "vertex") es == ElemIx(p, "sh") IN
  /\ p.ok /\ ec > 0 /\ ev > 0
  /\ \A c \in 1..18 : Has(p.els[ec], Cod!Bound18[c], FLOATS \cup {"double", "float64"})
  /\ \A c \in 1..4 : Has(p.els[ev], Cod!Word4[c], WORDS)
  /\ p.els[ec].count = Cod!NRuns(p.els[ev].count)
  /\ es > 0 => /\ p.els[es].count = p.els[ev].count
               /\ RestCount(p.els[es]) \in {3 * i : i \in 0..20}
               /\ \A i \in 0..(RestCount(p.els[es]) - 1) : Has(p.els[es], "f_rest_" \o ToString(i), BYTES)
CompStream(p, cells) ==
  LET ec == ElemIx(p, "chunk") ev == ElemIx(p, "vertex") es == ElemIx(p, "sh")
      n == p.els[ev].count
      m == IF es = 0 THEN 0 ELSE RestCount(p.els[es])
  IN [n |-> n, d |-> DegOf(m), m |-> m,
      B |-> [j \in 1..p.els[ec].count |-> [c \in 1..18 |-> cells[ec][j][PropIx(p.els[ec], Cod!Bound18[c])]]],
      W |-> [i \in 1..n |-> [c \in 1..4 |-> cells[ev][i][PropIx(p.els[ev], Cod!Word4[c])]]],
      X |-> IF m = 0 THEN <<>>
            ELSE [i \in 1..n |-> [c \in 1..m |-> cells[es][i][PropIx(p.els[es], "f_rest_" \o ToString(c - 1))]]]]

(* headers every reader has to accept: the canonical ones with informational lines anywhere after the first two *)
Strip(h) == SelectSeq(h, LAMBDA l : ~Informational(l))
Prop(t, nm) == <<"property", t, nm>>
CanonU(n, d) == <<<<"ply">>, <<"format", "binary_little_endian", "1.0">>, <<"element", "vertex", ToString(n)>>>>
                \o [c \in 1..Width(d) |-> Prop("float", Names(d)[c])] \o <<<<"end_header">>>>
CanonC(n, d) == <<<<"ply">>, <<"format", "binary_little_endian", "1.0">>, <<"element", "chunk", ToString(Cod!NRuns(n))>>>>
                \o [c \in 1..18 |-> Prop("float", Cod!Bound18[c])]
                \o <<<<"element", "vertex", ToString(n)>>>> \o [c \in 1..4 |-> Prop("uint", Cod!Word4[c])]
                \o (IF d = 0 THEN <<>>
                    ELSE <<<<"element", "sh", ToString(n)>>>>
                         \o [i \in 1..(3 * Bands(d)) |-> Prop("uchar", "f_rest_" \o ToString(i - 1))])
                \o <<<<"end_header">>>>
=============================================================================
