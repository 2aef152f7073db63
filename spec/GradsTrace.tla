----------------------------- MODULE GradsTrace -----------------------------
EXTENDS Grads, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
(* a log line: case, seen[0..]: after the sources were made and after each operation: exc, cs: per       *)
(* container n, rg (fields that track), leaf (fields an optimizer would take), word (contents);          *)
(* then end: exc, grads[s][r][f] = <<lo, hi>> (sh0: three pairs), none[s] fields without a gradient,      *)
(* opt: what the optimizer said; after[s]: what no longer shows the trained values                       *)
Has(L, f) == f # "shN" \/ L.case.d > 0
Fields(L) == {f \in FIELDS : Has(L, f)}
State(L, cs, x, who) ==
  IF Len(x.cs) # Len(cs) THEN {who \o "wrong number of containers"}
  ELSE UNION {LET c == cs[i] y == x.cs[i] IN
      (IF y.n # Len(c.rows) THEN {who \o "wrong number of rows"} ELSE {})
      \cup {who \o f \o " lost its gradient" : f \in {f \in Fields(L) : Need(c, f, L.case.kinds) /\ f \notin ToSet(y.rg)}}
      \cup (IF c.own = 0 THEN {} ELSE {who \o f \o " cannot be optimized" : f \in {f \in Fields(L) : f \in ToSet(L.case.kinds[c.own].track) /\ f \notin ToSet(y.leaf)}})
      : i \in 1..Len(cs)}
Frame(o, a, b, who) ==
  UNION {IF a.cs[i].word # b.cs[i].word THEN {who \o "changed another container"} ELSE {} : i \in {i \in 1..Len(a.cs) : ~(InPlace(o) /\ o.i = i)}}
Run(L) ==
  LET ops == L.case.ops
      s0 == [cs |-> Begin(L.case.kinds), bad |-> {}, over |-> FALSE]
      first == IF L.seen[1].exc # "" THEN [s0 EXCEPT !.bad = {"making the sources raised"}, !.over = TRUE] ELSE [s0 EXCEPT !.bad = State(L, s0.cs, L.seen[1], "source: ")]
  IN FoldLeft(LAMBDA s, i :
       IF s.over THEN s
       ELSE LET o == ops[i] who == o.op \o " " \o o.e \o ": " x == L.seen[i + 1] cs == TLCEval(Step(s.cs, o)) IN
            IF x.exc # "" THEN [s EXCEPT !.bad = @ \cup {who \o "raised"}, !.over = TRUE]
            ELSE [s EXCEPT !.cs = cs, !.bad = @ \cup State(L, cs, x, who) \cup Frame(o, L.seen[i], x, who)],
     first, [i \in 1..(Len(L.seen) - 1) |-> i])
Trained(L, c, f) == Need(c, f, L.case.kinds)
Final(L, cs) ==
  LET e == L.end c == cs[L.case.last] ks == L.case.kinds IN
  IF e.exc # "" THEN {"backward raised"}
  ELSE UNION {UNION {LET tracked == f \in ToSet(ks[s].track) IN
         IF ~tracked THEN (IF f \in ToSet(e.none[s]) THEN {} ELSE {f \o ": a frozen tensor got a gradient"})
         ELSE IF f \in ToSet(e.none[s]) THEN (IF \E q \in 1..Len(c.rows) : c.rows[q][1] = s THEN {f \o ": no gradient"} ELSE {})
         ELSE UNION {LET w == Grad(c, s, r, f, ks)
                         g == IF f = "sh0" THEN e.grads[s][r][f][Scaling(c, ks[s])] ELSE e.grads[s][r][f][1] IN
                     IF Near(g[1], w) /\ Near(g[2], w) THEN {} ELSE {f \o ": wrong gradient"} : r \in 1..ks[s].n}
         : f \in Fields(L)} : s \in 1..Len(ks)}
     \cup (IF e.opt = "" THEN {} ELSE {"the optimizer refused"})
     \cup UNION {IF \E i \in 1..Len(cs) : cs[i].own = s THEN {"after a step, the " \o w \o " is stale" : w \in ToSet(e.after[s])} ELSE {} : s \in 1..Len(ks)}
Verdict(L) == LET s == Run(L) IN s.bad \cup (IF s.over THEN {} ELSE IF Len(L.seen) # Len(L.case.ops) + 1 THEN {"unfinished"} ELSE Final(L, s.cs))
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
