----------------------------- MODULE ExactTrace -----------------------------
EXTENDS Exact, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}
Word(x) == IF x[2] = "x" THEN x[1] ELSE x[1] \o "@" \o x[2]
\* what a container shows: n, dts, v (words)
Shows(s, o, where) ==
  Cl(o.k = s.k, where \o "kind") \cup Cl(o.n = s.n, where \o "rows")
  \cup Cl(DOMAIN o.dts = DOMAIN s.dts, where \o "fields")
  \cup UNION {Cl(o.dts[f] = s.dts[f], where \o "type:" \o f) : f \in DOMAIN o.dts \cap DOMAIN s.dts}
  \cup UNION {Cl(Len(o.v[f]) = Len(s.v[f]) /\ \A r \in 1..Len(s.v[f]) : o.v[f][r] = [i \in 1..Len(s.v[f][r]) |-> Word(s.v[f][r][i])], where \o "values:" \o f) :
              f \in DOMAIN o.dts \cap DOMAIN s.dts}
Verdict(L) ==
  LET c == L.case
      st == TLCEval([i \in 1..Len(c.os) |-> Made(c.os[i])])
      w == "after " \o c.ops[1] \o (IF Len(c.ops) > 1 THEN "," \o c.ops[2] ELSE "") \o ": " IN
  IF L.exc # "" THEN {w \o "raised"}
  ELSE (LET a == Shows(RunOps(c.ops, st, FALSE), L.res, w) IN
        IF a # {} /\ "cons" \in Range(c.ops) /\ Shows(RunOps(c.ops, st, TRUE), L.res, w) = {} THEN {} ELSE a)
       \cup UNION {Shows(st[i], L.operands[i], w \o "operand ") : i \in 1..Len(c.os)}
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
