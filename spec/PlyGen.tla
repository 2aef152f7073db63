------------------------------- MODULE PlyGen -------------------------------
(* Headers: the canonical ones under one or two edits. *)
EXTENDS Ply, Json
CONSTANT DEPTH

BASES == {[c |-> FALSE, n |-> n, d |-> d] : n \in {0, 2}, d \in {0, 1}} \cup {[c |-> FALSE, n |-> 1, d |-> 3], [c |-> FALSE, n |-> 1, d |-> 2]}
         \cup {[c |-> TRUE, n |-> n, d |-> d] : n \in {0, 2}, d \in {0, 1}} \cup {[c |-> TRUE, n |-> 257, d |-> 0], [c |-> TRUE, n |-> 1, d |-> 3]}
HeadOf(b) == IF b.c THEN CanonC(b.n, b.d) ELSE CanonU(b.n, b.d)

InsAt(h, i, ls) == SubSeq(h, 1, i) \o ls \o SubSeq(h, i + 1, Len(h))     \* after line i
DelAt(h, i) == SubSeq(h, 1, i - 1) \o SubSeq(h, i + 1, Len(h))
IsProp(l) == Len(l) >= 3 /\ l[1] = "property"
IsElem(l) == Len(l) = 3 /\ l[1] = "element"
PropLines(h) == {i \in 1..Len(h) : IsProp(h[i])}
ElemLines(h) == {i \in 1..Len(h) : IsElem(h[i])}
(* interesting positions: everything in small headers, a sample of long runs of properties *)
Near(h) == {i \in 1..Len(h) : ~IsProp(h[i]) \/ i <= 8 \/ i >= Len(h) - 10 \/ \E j \in {i - 1, i + 1} : j \in 1..Len(h) /\ ~IsProp(h[j])}
NP(h) == PropLines(h) \cap Near(h)

INFO == {<<<<"comment">>>>, <<<<"comment", "generated", "by", "x">>>>, <<<<"comment", "end_header">>>>,
         <<<<"comment", "element", "vertex", "9">>>>, <<<<"comment", "property", "float", "nx">>>>,
         <<<<"comment", "format", "ascii", "1.0">>>>, <<<<"obj_info", "num_cols", "4">>>>, <<<<"obj_info", "element", "chunk", "1">>>>,
         <<<<"comment", "ply">>>>, <<<<"comment", "U00E9">>>>, <<<<"comment", "LONG9000">>>>, <<<<"comment", "LONG8100">>>>,
         <<<<"comment", "MANY150x60">>>>, <<<<"comment", "a", "SP3", "b">>>>}
ODDS == {<< <<>> >>, <<<<"format", "ascii", "1.0">>>>, <<<<"format", "binary_little_endian", "1.0">>>>, <<<<"property", "float", "nx">>>>,
          <<<<"property", "list", "uchar", "int", "vertex_indices">>>>, <<<<"element", "face", "0">>>>, <<<<"elements", "vertex", "2">>>>,
          <<<<"element", "face", "2">>, <<"property", "list", "uchar", "int", "vertex_indices">>>>,
          <<<<"element", "face", "1">>, <<"property", "float", "q">>>>, <<<<"element", "vertex", "1">>>>, <<<<"end_header">>>>,
          <<<<"element", "camera", "0">>, <<"property", "double", "t">>>>, <<<<"element", "sh", "2">>, <<"property", "uchar", "f_rest_0">>>>}
RETYPE == {"double", "int", "uint", "uchar", "float32", "uint8", "short", "char"}

Swap(h, i, j) == [h EXCEPT ![i] = h[j], ![j] = h[i]]
(* the block of an element: its line and its properties *)
RECURSIVE BlockEnd(_, _)
BlockEnd(h, i) == IF i + 1 <= Len(h) /\ (IsProp(h[i + 1]) \/ Informational(h[i + 1])) THEN BlockEnd(h, i + 1) ELSE i
MoveLast(h, i) == \* element at line i moved to the end of the header
  LET z == BlockEnd(h, i) IN SubSeq(h, 1, i - 1) \o SubSeq(h, z + 1, Len(h) - 1) \o SubSeq(h, i, z) \o <<h[Len(h)]>>

Info(h) == {InsAt(h, i, ls) : i \in (Near(h) \ {1, Len(h)}), ls \in INFO}
FAMILIES == 15
Family(h, x) ==
  CASE x = 1 -> Info(h)
    [] x = 2 -> {InsAt(h, i, ls) : i \in {j \in Near(h) : j < Len(h)}, ls \in ODDS}
    [] x = 3 -> {InsAt(h, 1, ls) : ls \in INFO}
    [] x = 4 -> {Swap(h, i, j) : i \in NP(h), j \in {k \in PropLines(h) : k \in NP(h) \/ (k % 5) = 0}}
    [] x = 5 -> {[h EXCEPT ![i][3] = nm] : i \in {k \in NP(h) : Len(h[k]) = 3}, nm \in {"foo", "x", "rot_3", "f_rest_0", "f_rest_9", "packed_color", "min_x", "X"}}
    [] x = 6 -> {[h EXCEPT ![i][2] = t] : i \in {k \in NP(h) : Len(h[k]) = 3}, t \in RETYPE}
    [] x = 7 -> {[i \in 1..Len(h) |-> IF IsProp(h[i]) /\ Len(h[i]) = 3 /\ h[i][2] = t1 THEN <<"property", t2, h[i][3]>> ELSE h[i]] :
         t1 \in {"float", "uint", "uchar"}, t2 \in RETYPE \cup {"float"}}
    [] x = 8 -> {DelAt(h, i) : i \in Near(h)}
    [] x = 9 -> {InsAt(h, i, <<h[i]>>) : i \in Near(h)}
    [] x = 10 -> {[h EXCEPT ![i][3] = c] : i \in ElemLines(h), c \in {"0", "1", "2", "3", "256", "257", "x", "-1", "2.0", ""}}
    [] x = 11 -> {[h EXCEPT ![i][2] = nm] : i \in ElemLines(h), nm \in {"vertices", "Vertex", "sh", "chunk", "vertex"}}
    [] x = 12 -> {MoveLast(h, i) : i \in ElemLines(h)}
    [] x = 13 -> {[h EXCEPT ![2] = l] : l \in {<<"format", "ascii", "1.0">>, <<"format", "binary_big_endian", "1.0">>, <<"format">>,
                                      <<"format", "binary_little_endian", "2.0">>, <<"format", "BINARY_LITTLE_ENDIAN", "1.0">>,
                                      <<"comment", "format", "binary_little_endian", "1.0">>}}
    [] x = 14 -> {[h EXCEPT ![1] = l] : l \in {<<"PLY">>, <<"plyx">>, <<>>, <<"ply", "x">>}}
    [] x = 15 -> (IF Len(h) >= 6 THEN {SubSeq(h, 1, j) \o <<h[Len(h)]>> : j \in Near(h) \cap (3..(Len(h) - 2))} ELSE {})
Edits(h) == UNION {Family(h, x) : x \in 1..FAMILIES}

VARIABLES vb, vh, vk, ve
Init == vb \in BASES /\ vh = HeadOf(vb) /\ vk = 0 /\ ve = "lf"
Emit == PrintT("CASE " \o ToJson([base |-> vb, hdr |-> vh', eol |-> ve', k |-> vk']))
Next ==
  /\ vk < DEPTH /\ vk' = vk + 1 /\ vb' = vb
  /\ \/ vh' \in Edits(vh) /\ ve' = ve
     \/ vh' = vh /\ ve = "lf" /\ ve' \in {"crlf", "sp", "tab", "trail", "lead", "cr", "none"}
  /\ Emit
Spec == Init /\ [][Next]_<<vb, vh, vk, ve>>
(* random walks: DEPTH edits in a row *)
WalkInit == vb \in BASES /\ vh = HeadOf(vb) /\ vk = 0 /\ ve \in {"lf", "crlf", "sp", "tab", "trail", "lead"}
Walk == /\ vk < DEPTH /\ vk' = vk + 1 /\ UNCHANGED <<vb, ve>>
        /\ \E x \in {RandomElement(1..FAMILIES)} : LET F == Family(vh, x) IN vh' \in {IF F = {} THEN vh ELSE RandomElement(F)}
WalkSpec == WalkInit /\ [][Walk]_<<vb, vh, vk, ve>>
EmitWalk == vk >= 2 => PrintT("CASE " \o ToJson([base |-> vb, hdr |-> vh, eol |-> ve, k |-> vk]))
(* the canonical headers denote what they should; informational lines do not change it *)
CanonMeans == vk = 0 => LET p == Parsed(vh) IN
   /\ p.ok
   /\ (vb.c => CompOk(p) /\ UncDegree(p) = -1) /\ (~vb.c => UncDegree(p) = vb.d /\ ~CompOk(p))
InfoNeutral == vk = 0 => \A g \in Info(vh) : Parsed(g) = Parsed(vh)
=============================================================================
