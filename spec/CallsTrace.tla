----------------------------- MODULE CallsTrace -----------------------------
(* Reads what the threads did.  solo: the answer of every call of the case when it ran alone.  runs: one *)
(* record per execution: the events, the scenes and files found changed afterwards (must be none), and   *)
(* what the first call answers when it is asked once more.                                               *)
EXTENDS Calls, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Verdict(L) ==
  LET c == L.case
      Ans(a) == (CHOOSE p \in Range(L.solo) : p[1] = a.op /\ p[2] = a.x /\ p[3] = a.y)[4]
      One(r) == LET s == RunAll(c.progs, Ans, r.events) IN
        s.bad
        \cup (IF Finished(c.progs, s) THEN {} ELSE {"unfinished"})
        \cup {"changed: " \o w \o " by " \o Name(c.progs[1][1]) : w \in Range(r.changed)}
        \* left but not by the interrupt, nor with the right answer
        \* (a call that runs out of memory may still answer by another road, or say it could not)
        \cup (IF r.left \in {"", "cut", "same", "error"} \/ (c.exc = "MemoryError" /\ r.left = "with another answer") THEN {} ELSE {"cut short " \o r.left \o ": " \o Name(c.progs[1][1])})
        \cup {"afterwards: " \o Name(c.progs[i][1]) : i \in {i \in 1..Len(c.progs) : r.again[i] # Ans(c.progs[i][1])}}
  IN (IF L.exc # "" THEN {"driver: " \o L.exc} ELSE {}) \cup UNION {One(r) : r \in Range(L.runs)}
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
