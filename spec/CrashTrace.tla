----------------------------- MODULE CrashTrace -----------------------------
(* L.ops: what the save did to the file system; L.seen: points [i, m] (after i steps and m bytes of the next one) with the readers' answers *)
EXTENDS Crash, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}
At(L, p) == LET s == After(L.ops, p.i) IN IF p.m = 0 THEN s ELSE Step(s, L.ops[p.i + 1], p.m)
PointBad(L, p) ==
  LET c == Class(At(L, p), L.total) IN
  UNION {IF p.outs[x].how \in MayRead(c) THEN {}
         ELSE {c \o " file read as " \o p.outs[x].how \o ":" \o L.case.w \o ":" \o p.outs[x].rd} : x \in 1..Len(p.outs)}
Verdict(L) ==
  UNION {PointBad(L, L.seen[x]) : x \in 1..Len(L.seen)}
  \cup Cl(L.mapped \/ Class(After(L.ops, Len(L.ops)), L.total) = "new", "not the scene at the end:" \o L.case.w)
  \cup Cl(\A i \in 0..Len(L.ops) : \E x \in 1..Len(L.seen) : L.seen[x].i = i /\ L.seen[x].m = 0, "driver: points")
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
