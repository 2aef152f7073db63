------------------------------ MODULE PlyTrace ------------------------------
(* Every reader's answer to every file against what the file denotes. *)
EXTENDS Ply, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}

NONE_OK == {"read_uncompressed", "read_compressed"}
FOR_U == {"plyread", "load", "read_uncompressed", "gt_load"}
FOR_C == {"plyread", "load", "read_compressed", "from_bytes", "gpu", "gt_load"}

(* a line end_header inside the header: what follows is body, whose bytes are not known *)
Cut(h) == \E i \in 1..(Len(h) - 1) : h[i] = <<"end_header">>

UncOk(p, L, o) ==
  LET d == UncDegree(p) IN
  d >= 0 /\ o.d = d /\ o.k = Bands(d) /\ o.n = p.els[ElemIx(p, "vertex")].count /\ o.rows = UncScene(p, L.cells, d)
CompRight(p, L, o) ==
  CompOk(p) /\ LET s == CompStream(p, L.cells) IN
    IF s.d >= 0 THEN Cod!DecodeBad(s, o.de, 8) = {}
    ELSE \* a number of bands that is no degree: the bands come back as they stand
      /\ o.k = s.m \div 3
      /\ Cod!DecodeBad([s EXCEPT !.d = 0, !.X = <<>>], [o.de EXCEPT !.d = 0], 8) = {}
      /\ \A i \in 1..s.n, b \in 1..(s.m \div 3), ch \in 1..3 :
           o.de.H[i][(b - 1) * 3 + ch] = 2 * s.X[i][(ch - 1) * (s.m \div 3) + b] - 255

OutBad(L, p, o) ==
  IF o.how = "ok" THEN
    IF Cut(L.case.hdr) THEN {}
    ELSE IF ~p.ok THEN {"malformed accepted:" \o o.rd[1]}
    ELSE Cl(o.n >= 0 /\ (UncOk(p, L, o) \/ CompRight(p, L, o)), "misread:" \o o.rd[1])
  ELSE {"raised:" \o o.rd[i] \o ":" \o o.how : i \in {j \in 1..Len(o.rd) :
          o.how # "ValueError" /\ ~(o.how = "none" /\ o.rd[j] \in NONE_OK)}}

MustRead(L) ==
  LET b == L.case.base s == Strip(L.case.hdr) IN
  IF L.trail # 0 \/ L.case.eol # "lf" THEN {}
  ELSE IF ~b.c /\ s = CanonU(b.n, b.d) THEN FOR_U
  ELSE IF b.c /\ s = CanonC(b.n, b.d) THEN FOR_C ELSE {}

Verdict(L) ==
  LET p == Parsed(L.case.hdr)
      O == {L.outs[x] : x \in 1..Len(L.outs)}
      by(r) == CHOOSE o \in O : \E i \in 1..Len(o.rd) : o.rd[i] = r
      pr == by("plyread")
  IN UNION {OutBad(L, p, o) : o \in O}
     \cup {"refused:" \o r : r \in {x \in MustRead(L) : by(x).how # "ok"}}
     \cup Cl(L.det.how = "ok", "detect raised")
     \cup (IF pr.how = "ok"
           THEN Cl((by("read_compressed").how = "ok") = L.det.c /\ L.det.d = (IF L.det.c THEN -1 ELSE pr.d), "detect disagrees")
           ELSE Cl(~L.det.c /\ L.det.d = -1, "detected but refused"))

Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
