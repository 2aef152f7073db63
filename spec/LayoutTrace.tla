----------------------------- MODULE LayoutTrace -----------------------------
EXTENDS Layout, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}

StreamBad(L, s) ==
  LET d == L.case.d n == L.case.n w == s.wr[1]
      head == /\ Len(s.hdr) = 1
              /\ s.hdr[1] = [name |-> "vertex", count |-> n, ptype |-> "float", props |-> Names(d)]
  IN Cl(head, "header:" \o w)
     \cup (IF ~head THEN {}
           ELSE Cl(s.tail = 0, "size:" \o w)
                \cup (IF s.tail # 0 THEN {}
                      ELSE Cl(\A j \in 1..Len(L.rows) : RowOk(d, L.rows[j], s.rows[j]), "values:" \o w)))
     \cup UNION {LET r == s.dec[x] IN
           IF r.err # "" THEN {"unreadable:" \o r.rd[1]}
           ELSE Cl(r.n = n, "count:" \o r.rd[1]) \cup Cl(r.d = d, "degree:" \o r.rd[1])
                \cup (IF r.n # n THEN {} ELSE Cl(r.rows = L.rows, "loaded:" \o r.rd[1]))
                \cup Cl(r.again = s.tok, "rewritten:" \o r.rd[1]) : x \in 1..Len(s.dec)}

Verdict(L) ==
  Cl(\A j \in 1..Len(L.rows) : \A f \in Fields : Len(L.rows[j][f]) = FieldSize(L.case.d, f), "driver")
  \cup UNION {StreamBad(L, L.streams[x]) : x \in 1..Len(L.streams)}
  \cup Cl(Cardinality({L.streams[x].tok : x \in 1..Len(L.streams)}) = 1, "identical")
  \cup {"raised:" \o L.errs[x][1] : x \in 1..Len(L.errs)}

Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
