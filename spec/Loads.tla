-------------------------------- MODULE Loads --------------------------------
(* What is loaded belongs to its caller.  Files, byte buffers and scenes are separate things: a scene   *)
(* keeps its values whatever happens to the file or buffer it came from (overwritten in place,          *)
(* truncated, removed, saved over, even by the scene itself) and to other scenes loaded from it; it can *)
(* be edited; and an edit reaches nothing else.  The frame of every operation is exact.                 *)
(*                                                                                                      *)
(* State: files 1 (uncompressed), 2 (compressed), 3 (SOG); buffers 1 (compressed), 2 (SOG), 3 (made by  *)
(* compressing); scenes in the order they were loaded; pieces kept from in-memory compression.  Contents *)
(* are words; a word is invented by the code under test (what it showed when a thing was made) and must *)
(* stay; where the contents must be those of something else (a scene saved uncompressed and read again, *)
(* the same file read again the same way) the word is known beforehand.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
FIELDS == {"means", "scales", "quats", "opacities", "sh0", "shN"}
READERS(f) == IF f = 3 THEN {"sogread", "sogpath"} ELSE {"plyread", "gsload", "tload", "tpath"}
DECODERS(b) == IF b = 2 THEN {"sogread"} ELSE {"dec"}
HURTS == {"zero", "cut", "gone", "swap"}
\* operations: [op, i, j, e]
Op(o, i, j, e) == [op |-> o, i |-> i, j |-> j, e |-> e]
None == "-"
\* m: what the generator needs to know: which files are scenes now, kinds of the scenes, whether buffer 3 exists
Model0(kinds) == [files |-> <<TRUE, TRUE, TRUE>>, bufs |-> <<TRUE, TRUE, FALSE>>, scenes |-> <<>>, pieces |-> 0, deg |-> kinds.d]
KindOf(e) == IF e \in {"tload", "tpath"} THEN "pt" ELSE "np"
Able(m, o) ==
  CASE o.op = "load" -> m.files[o.j] /\ o.e \in READERS(o.j) /\ Len(m.scenes) < 3
    [] o.op = "dec" -> m.bufs[o.j] /\ o.e \in DECODERS(o.j) /\ Len(m.scenes) < 3
    [] o.op = "save" -> o.i <= Len(m.scenes) /\ o.j \in {1, 2}
    [] o.op = "hurt" -> m.files[o.j]
    [] o.op \in {"smear", "drop"} -> m.bufs[o.j]
    [] o.op = "edit" -> o.i <= Len(m.scenes) /\ (o.e = "shN" => m.deg > 0)
    [] o.op \in {"bytes", "pieces"} -> o.i <= Len(m.scenes) /\ m.scenes[o.i] = "np" /\ (o.op = "pieces" => m.pieces = 0)
    [] OTHER -> FALSE
Step(m, o) ==
  CASE o.op \in {"load", "dec"} -> [m EXCEPT !.scenes = Append(@, KindOf(o.e))]
    [] o.op = "save" -> [m EXCEPT !.files[o.j] = TRUE]
    [] o.op = "hurt" -> IF o.e = "swap" THEN m ELSE [m EXCEPT !.files[o.j] = FALSE]
    [] o.op = "smear" \/ o.op = "drop" -> [m EXCEPT !.bufs[o.j] = FALSE]
    [] o.op = "bytes" -> [m EXCEPT !.bufs[3] = TRUE]
    [] o.op = "pieces" -> [m EXCEPT !.pieces = o.i]
    [] OTHER -> m
(* ---- judging ----------------------------------------------------------------------------------- *)
\* s: files, bufs: words (contents as bytes); scenes: field -> word; pieces: word; known[f]: entry family -> scene (words) expected from file f
\* x: what was seen after the operation: [files, bufs, scenes, pieces, exc]
Same(a, b, what) == IF a = b THEN {} ELSE {what}
Family(f, e) == IF f = 1 THEN "any" ELSE IF KindOf(e) = "pt" THEN "pt" ELSE "np"
Frame(s, x, o) ==
  LET files == {j \in 1..3 : ~(o.op \in {"save", "hurt"} /\ o.j = j)}
      bufs == {j \in 1..3 : ~(o.op \in {"smear", "drop"} /\ o.j = j) /\ ~(o.op = "bytes" /\ j = 3)}
      who == o.op \o " " \o o.e \o ": " IN
  UNION {Same(s.files[j], x.files[j], who \o "changed file " \o ToString(j)) : j \in files}
  \cup UNION {Same(s.bufs[j], x.bufs[j], who \o "changed buffer " \o ToString(j)) : j \in bufs}
  \cup (IF o.op = "pieces" THEN {} ELSE Same(s.pieces, x.pieces, who \o "changed pieces"))
  \cup UNION {UNION {Same(s.scenes[i][f], x.scenes[i][f], who \o "changed scene") : f \in {f \in FIELDS : ~(o.op = "edit" /\ o.i = i /\ o.e = f)}} : i \in 1..Len(s.scenes)}
Judge(s, o, x) ==
  LET who == o.op \o " " \o o.e \o ": "
      n == Len(s.scenes) IN
  IF x.exc # "" THEN [s EXCEPT !.bad = @ \cup {who \o "raised"}, !.over = TRUE]
  ELSE LET fr == Frame(s, x, o)
           fresh == IF o.op \in {"load", "dec"} THEN x.scenes[n + 1] ELSE <<>>
           known == IF o.op = "load" THEN s.known[o.j] ELSE {}
           same == {p \in known : p[1] = Family(o.j, o.e)}
           b == CASE o.op = "load" -> UNION {Same(p[2], fresh, who \o "not what the file holds") : p \in same}
                  [] o.op = "edit" -> IF s.scenes[o.i][o.e] = x.scenes[o.i][o.e] /\ s.scenes[o.i][o.e] # None THEN {who \o "no effect"} ELSE {}
                  [] OTHER -> {}
           kn == CASE o.op = "load" /\ same = {} -> [s.known EXCEPT ![o.j] = @ \cup {<<Family(o.j, o.e), fresh>>}]
                   [] o.op = "save" /\ o.j = 1 -> [s.known EXCEPT ![1] = {<<"any", s.scenes[o.i]>>}]
                   [] o.op = "save" -> [s.known EXCEPT ![2] = {}]
                   [] o.op = "hurt" -> [s.known EXCEPT ![o.j] = {}]
                   [] OTHER -> s.known IN
       [files |-> x.files, bufs |-> x.bufs, scenes |-> x.scenes, pieces |-> x.pieces, known |-> kn, open |-> s.open, bad |-> s.bad \cup fr \cup b \cup (IF x.open <= s.open THEN {} ELSE {who \o "left a file open"}), over |-> FALSE]
Begin(x) == [files |-> x.files, bufs |-> x.bufs, scenes |-> <<>>, pieces |-> x.pieces, known |-> <<{}, {}, {}>>, open |-> x.open, bad |-> {}, over |-> FALSE]
=============================================================================
