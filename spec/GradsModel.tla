---------------------------- MODULE GradsModel ----------------------------
(* How a container that packs its fields into one base tensor keeps gradients.  A base is absent, outside *)
(* the graph (made from plain values) or inside it (made from tracked fields); flow: the fields that      *)
(* reach their leaves; need: the fields that must.  With CARELESS, every operation takes a base that is   *)
(* there (gradients set on fields later are lost: TLC finds it in three steps); the rule the              *)
(* specification states: a base outside the graph is not used where a field needs gradients.              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS CARELESS, MAX
F == {"a", "b"}
VARIABLES cs
C(b, flow, need, leaf) == [b |-> b, flow |-> flow, need |-> need, leaf |-> leaf]
Usable(c) == c.b = "in" \/ (c.b = "out" /\ (CARELESS \/ c.flow = {}))
FromBase(b) == IF b = "in" THEN F ELSE {}
Put(c) == Len(cs) < MAX /\ cs' = Append(cs, c)
Make == \/ \E t \in SUBSET F : Put(C("none", t, t, TRUE))          \* from separate tensors
        \/ Put(C("out", {}, {}, TRUE))                             \* loaded
        \/ Put(C("out", F, F, TRUE))                               \* loaded with gradient tracking
Track == \E i \in 1..Len(cs), f \in F : cs[i].leaf /\ cs' = [cs EXCEPT ![i].flow = @ \cup {f}, ![i].need = @ \cup {f}]
Take == \E i \in 1..Len(cs) : LET c == cs[i] IN
          Put(IF Usable(c) THEN C(c.b, FromBase(c.b), c.need, FALSE) ELSE C("none", c.flow, c.need, FALSE))
Pack == \E i \in 1..Len(cs) : LET c == cs[i] b == IF c.flow = {} THEN "out" ELSE "in" IN
          c.b = "none" /\ Put(C(b, FromBase(b), c.need, FALSE))
Convert == \E i \in 1..Len(cs) : Put(C("none", cs[i].flow, cs[i].need, FALSE))
Add == \E i \in 1..Len(cs), j \in 1..Len(cs) : LET c == cs[i] d == cs[j] b == IF "in" \in {c.b, d.b} THEN "in" ELSE "out" IN
          Put(IF Usable(c) /\ Usable(d) THEN C(b, FromBase(b), c.need \cup d.need, FALSE) ELSE C("none", c.flow \cup d.flow, c.need \cup d.need, FALSE))
Init == cs = <<>>
Next == Make \/ Track \/ Take \/ Pack \/ Convert \/ Add
Spec == Init /\ [][Next]_cs
Flows == \A i \in 1..Len(cs) : cs[i].need \subseteq cs[i].flow
=============================================================================
