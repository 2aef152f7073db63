-------------------------------- MODULE Torn --------------------------------
(***************************************************************************)
(* A save appends blocks; an interruption leaves any prefix.  A reader sees  *)
(* only the bytes that are there: as long as the header is incomplete it     *)
(* knows nothing, then it knows how much has to follow.                      *)
(***************************************************************************)
EXTENDS Ply

LineLen(l) == FoldLeft(LAMBDA a, t : a + Len(t), 0, l) + Len(l)      \* tokens, blanks between them, newline
HeadLen(h) == FoldLeft(LAMBDA a, l : a + LineLen(l), 0, h)
TypeSize(t) == CASE t \in BYTES -> 1 [] t \in FLOATS \cup WORDS -> 4
ElemSize(e) == e.count * FoldLeft(LAMBDA a, p : a + TypeSize(p.type), 0, e.props)
BodyLen(h) == LET p == Parsed(h) IN FoldLeft(LAMBDA a, e : a + ElemSize(e), 0, p.els)
Total(h) == HeadLen(h) + BodyLen(h)
(* ends of the blocks a writer writes *)
Ends(h) == LET p == Parsed(h) IN
  {HeadLen(h) + FoldLeft(LAMBDA a, e : a + ElemSize(e), 0, SubSeq(p.els, 1, k)) : k \in 0..Len(p.els)}

(* what a reader may conclude from the first `len` bytes of the file *)
Verdict4(h, len) == IF len < HeadLen(h) THEN "no header" ELSE IF len < Total(h) THEN "short" ELSE "complete"

READERS_U == {"plyread", "load", "read_uncompressed", "gt_load"}
READERS_C == {"plyread", "load", "read_compressed", "from_bytes", "gpu", "gt_load"}
READERS_S == {"sog_file", "sog_bytes"}
Answer(kind, h, len, rd) ==
  IF kind = "sog" THEN "refused"
  ELSE IF Verdict4(h, len) = "complete" /\ rd \in (IF kind = "u" THEN READERS_U ELSE READERS_C) THEN "ok" ELSE "refused"
=============================================================================
