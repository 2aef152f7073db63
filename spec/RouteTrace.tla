----------------------------- MODULE RouteTrace -----------------------------
(***************************************************************************)
(* L.steps[i] = [err, ls]: what the call raised ("" if it returned) and the   *)
(* directory afterwards, ls = seq of [p, tok, sc, c, agree]; sc = 0: refused   *)
(* by every reader, -1: loads as some other scene.                             *)
(***************************************************************************)
EXTENDS Route, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}

Paths(ls) == {ls[x].p : x \in 1..Len(ls)}
At(ls, p) == ls[CHOOSE x \in 1..Len(ls) : ls[x].p = p]
Before(L, i) == IF i = 1 THEN <<>> ELSE L.steps[i - 1].ls

StepBad(L, i) ==
  LET op == L.case.ops[i] s == L.steps[i] old == Before(L, i) g == Goal(op)
      changed == {p \in Paths(s.ls) \cup Paths(old) : p \notin Paths(s.ls) \/ p \notin Paths(old) \/ At(s.ls, p).tok # At(old, p).tok}
      name == op.e \o ":" \o (IF op.cut = "none" THEN "" ELSE "cut")
  IN Cl(changed \subseteq {g.to}, "other file touched:" \o name)
     \cup Cl(Len(s.ls) = Cardinality(Paths(s.ls)), "driver")
     \cup (IF ~Fails(op)
           THEN Cl(s.err = "", "raised:" \o name)
                \cup (IF s.err # "" THEN {}
                      ELSE IF g.to \notin Paths(s.ls) THEN {"not written:" \o name}
                      ELSE LET f == At(s.ls, g.to) IN
                           Cl(f.c = g.c, "format:" \o name) \cup Cl(f.sc = op.sc /\ f.agree, "content:" \o name))
           ELSE Cl(s.err # "", "no error:" \o name)
                \cup (IF op.e \in REFUSED THEN Cl(changed = {} /\ s.err = "ValueError", "refused call wrote:" \o name)
                      ELSE IF op.nm.dir \notin DIRS THEN Cl(changed = {}, "folder made:" \o name)
                      ELSE IF g.to \notin changed THEN {}
                      ELSE IF g.to \notin Paths(s.ls) THEN {}
                      ELSE Cl(At(s.ls, g.to).sc = 0, "leftover loads:" \o name)))

Verdict(L) == UNION {StepBad(L, i) : i \in 1..Len(L.steps)} \cup Cl(Len(L.steps) = Len(L.case.ops), "driver")
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
