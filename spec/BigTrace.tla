------------------------------ MODULE BigTrace ------------------------------
EXTENDS Big, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
(* a log line: case; base (what is wrong with the objects made);  seen[k]: exc, uids (numbers of the rows of the new object), split (attributes that    *)
(* disagree), layers (names), off (layers whose entries are wrong), kind, words (contents of all objects)   *)
Start(L) == LET o == L.case.os IN [i \in 1..Len(o) |-> [rows |-> TLCEval(Base(i, o[i].n)), kind |-> o[i].kind, lay |-> IF o[i].masks THEN "yes" ELSE "no"]]
Wrong(s, k, o, x, rows, lay) ==
  (IF x.uids = rows THEN {} ELSE {o.op \o ": wrong rows"})
  \cup {o.op \o ": " \o a \o " of other rows" : a \in ToSet(x.split)}
  \cup (IF x.kind = Kind(s.st, o) THEN {} ELSE {o.op \o ": wrong kind"})
  \cup (IF lay = "mix" \/ ToSet(x.layers) = (IF lay = "yes" THEN ToSet(LAYERS) ELSE {}) THEN {} ELSE {o.op \o ": wrong layers"})
  \cup (IF lay # "yes" \/ x.off = <<>> THEN {} ELSE {o.op \o ": layers of other rows"})
  \cup (IF SubSeq(x.words, 1, Len(s.words)) = s.words THEN {} ELSE {o.op \o ": changed another object"})
Run(L) ==
  FoldLeft(LAMBDA s, k :
    IF s.over THEN s
    ELSE LET o == L.case.ops[k] x == L.seen[k] IN
      IF x.exc # "" THEN [s EXCEPT !.bad = @ \cup {o.op \o ": raised"}, !.over = TRUE]
      ELSE LET rows == TLCEval(Rows(s.st, o)) lay == Layers(s.st, o) bad == Wrong(s, k, o, x, rows, lay) IN
        [s EXCEPT !.st = Append(@, [rows |-> rows, kind |-> Kind(s.st, o), lay |-> lay]), !.bad = bad, !.over = bad # {}, !.words = x.words],
    [st |-> Start(L), bad |-> {"make: " \o a : a \in ToSet(L.base)}, over |-> L.base # <<>>, words |-> L.words], [k \in 1..Len(L.seen) |-> k])
Verdict(L) == LET s == Run(L) IN s.bad \cup (IF s.over \/ Len(L.seen) = Len(L.case.ops) THEN {} ELSE {"unfinished"})
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
