------------------------------ MODULE TornTrace ------------------------------
(* L.outs: runs [rd, lo, hi, how] of the answers for the lengths L.cuts (intervals). *)
EXTENDS Torn, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}
NONE_OK == {"read_uncompressed", "read_compressed"}

Tested(L, x) == \E i \in 1..Len(L.cuts) : L.cuts[i][1] <= x /\ x <= L.cuts[i][2]
Wanted(L) == IF L.case.kind = "sog" THEN {0, 1, L.total - 1, L.total}
             ELSE {x \in UNION {{e - 1, e, e + 1} : e \in {z + L.headlen - HeadLen(L.hdr) : z \in Ends(L.hdr)}} : x >= 0 /\ x <= L.total}

RunBad(L, r) ==
  IF r.rd = "detect" THEN
    IF L.case.kind = "sog" THEN {}
    ELSE LET hl == L.headlen IN
       (IF r.lo < hl THEN Cl(r.how = "nothing", "detect:" \o r.how) ELSE {})
       \cup (IF r.hi >= hl THEN Cl(r.how = (IF L.case.kind = "c" THEN "compressed" ELSE "degree" \o ToString(L.case.d)), "detect:" \o r.how) ELSE {})
  ELSE
    LET full == IF L.case.kind = "sog" THEN r.rd \in READERS_S ELSE r.rd \in (IF L.case.kind = "u" THEN READERS_U ELSE READERS_C)
        legal == r.how = "ValueError" \/ (r.how = "none" /\ r.rd \in NONE_OK)
    IN IF r.lo = L.total /\ full THEN Cl(r.how = "ok", "complete file refused:" \o r.rd \o ":" \o r.how)
       ELSE IF r.how = "ok" THEN {"torn file read:" \o r.rd}
       ELSE Cl(legal, "raised:" \o r.rd \o ":" \o r.how)

Verdict(L) ==
  UNION {RunBad(L, L.outs[x]) : x \in 1..Len(L.outs)}
  \cup Cl(\A x \in Wanted(L) : Tested(L, x), "driver: cuts")
  \cup (IF L.case.kind = "sog" THEN {}
        ELSE LET canon == IF L.case.kind = "u" THEN CanonU(L.case.n, L.case.d) ELSE CanonC(L.case.n, L.case.d) IN
             Cl(Strip(L.hdr) = canon, "driver: header") \cup Cl(L.case.long \/ (L.total = Total(L.hdr) /\ L.headlen = HeadLen(L.hdr)), "size")
             \cup Cl(L.total - L.headlen = BodyLen(L.hdr), "size"))

Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
