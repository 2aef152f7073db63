----------------------------- MODULE MasksTrace -----------------------------
EXTENDS Masks, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}
\* pairs <<pattern, value>> seen over all rows
PairsOk(c, ps) == \A k \in 1..Len(ps) : ps[k][2] = (IF Answer(c, ps[k][1]) THEN 1 ELSE 0)
\* triples <<layer, pattern, value>> of single layers
LayersOk(c, ts) == \A k \in 1..Len(ts) : ts[k][3] = (IF Selects(c, ts[k][2], ts[k][1]) THEN 1 ELSE 0)
Want(c) == [k \in 1..Len(Layers(c)) |-> Name(Layers(c)[k])]
Verdict(L) ==
  LET c == L.case at == c.how \o ":" \o c.kind IN
  IF L.err # "" THEN {"raised:" \o at}
  ELSE
    Cl(L.names = Want(c), "names:" \o c.hist \o ":" \o c.kind)
    \cup Cl(L.shape = <<L.rows, Len(Layers(c))>>, "shape:" \o c.hist \o ":" \o c.kind)
    \cup Cl(LayersOk(c, L.before), "layers:" \o c.hist \o ":" \o c.kind)
    \cup Cl(L.badname = "ValueError" /\ L.badlen = "ValueError" /\ L.badget = "ValueError" /\ L.baddel = "ValueError" /\ L.badmode = "ValueError", "refused:" \o c.kind)
    \cup Cl(L.same, "unchanged:" \o at)
    \cup (IF ~Known(c) THEN Cl(L.ans.err = "ValueError", "unknown:" \o at)
          ELSE IF L.ans.err # "" THEN Cl(~Plain(c) /\ L.ans.err = "ValueError", "raised:" \o at)
          ELSE Cl(PairsOk(c, L.ans.pairs), "combine:" \o c.mode \o ":" \o at)
               \cup Cl(L.ans.rows = L.rows, "rows:" \o at) \cup Cl(L.ans.whole, "order:" \o at)
               \cup Cl(LayersOk(c, L.ans.layers), "moved:" \o at)
               \cup Cl(L.ans.names = Want(c), "namesafter:" \o at))
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
