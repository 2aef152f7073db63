----------------------------- MODULE LoadsTrace -----------------------------
EXTENDS Loads, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Verdict(L) ==
  LET ops == L.case.ops
      s == FoldLeft(LAMBDA s, i : IF s.over THEN s ELSE TLCEval(Judge(s, ops[i], L.seen[i + 1])), Begin(L.seen[1]), [i \in 1..(Len(L.seen) - 1) |-> i]) IN
  s.bad \cup (IF s.over \/ Len(L.seen) = Len(ops) + 1 THEN {} ELSE {"unfinished"})
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
