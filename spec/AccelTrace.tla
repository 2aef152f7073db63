----------------------------- MODULE AccelTrace -----------------------------
(* A log line is a case, the answer each operation has without a compiler, and the runs: one for a history, one per
   interleaving for two threads.  A run lists for each call what was seen. *)
EXTENDS Accel, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Key(o) == o.e \o ":" \o o.s
Where(o) == IF o.s \in Bad \cup {"missing"} THEN "own" ELSE o.e
CallBad(ref, o, r) ==
  IF ~Allowed(ref[Key(o)], r.out, r.interrupted) THEN
     {(IF r.interrupted THEN "interrupt:" ELSE IF o.s \in Bad THEN "masked:" ELSE "answer:") \o Where(o)} ELSE {}
RunBad(L, run) == UNION {CallBad(L.ref, L.case.ops[j], run.calls[j])
                         \cup (IF run.calls[j].intact THEN {} ELSE {"caller:" \o Where(L.case.ops[j])}) : j \in 1..Len(L.case.ops)}
Verdict(L) == IF \E o \in {L.case.ops[j] : j \in 1..Len(L.case.ops)} : <<o.e, o.s>> \notin Ops THEN {"driver"}
              ELSE UNION {IF Len(L.runs[x].calls) # Len(L.case.ops) THEN {"died"} ELSE RunBad(L, L.runs[x]) : x \in 1..Len(L.runs)}
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
