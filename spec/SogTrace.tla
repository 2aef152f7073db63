------------------------------ MODULE SogTrace ------------------------------
EXTENDS Sog, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}
Pre(p, s) == {p \o x : x \in s}

Bundle(L) == [v |-> L.case.v, n |-> L.case.n, d |-> L.case.d, u |-> L.case.u, st |-> L.st, px |-> L.px]
Verdict(L) ==
  LET O == {L.outs[x] : x \in 1..Len(L.outs)} IN
  UNION {IF o.how = "ok"
         THEN IF L.case.fault.how # "none" THEN {"accepted:" \o L.case.fault.how \o ":" \o L.case.fault.file}
              ELSE Pre(o.rd[1] \o ":", SceneBad(Bundle(L), o.de))
         ELSE IF L.case.fault.how = "none" THEN {"refused:" \o o.rd[1] \o ":" \o o.how}
         ELSE Cl(o.how = "ValueError", "raised:" \o o.rd[1] \o ":" \o o.how) : o \in O}
  \cup (IF L.case.fault.how = "none" THEN Cl(Cardinality({o.tok : o \in O}) = 1, "same") ELSE {})

Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
