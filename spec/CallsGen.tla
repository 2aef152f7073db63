------------------------------ MODULE CallsGen ------------------------------
(* Schedules.  cut: one call, interrupted at every one of its steps.  pre: one call, set aside at each  *)
(* of its steps while a second one runs from start to end.  sched: two or three threads of one or two   *)
(* calls, the processor going round in turns of so many steps; one of them may be interrupted.  fresh:    *)
(* the process has done nothing before (caches are empty).                                                 *)
EXTENDS Calls, Json
VARIABLES c
EXCS == {"KeyboardInterrupt", "MemoryError"}
TURNS == {1, 2, 3, 5, 9, 17, 40, 1000}
Blank == [at |-> 0, kind |-> "", progs |-> <<>>, exc |-> "", cut |-> <<>>, turns |-> <<>>, fresh |-> FALSE]
Init == c = Blank
Emit(d) == PrintT("CASE " \o ToJson([kind |-> d.kind, progs |-> d.progs, exc |-> d.exc, cut |-> d.cut, turns |-> d.turns, fresh |-> d.fresh]))
Heavy == {a \in CALLS : a.op \in HEAVY}
Choose(at, progs) == c' = [c EXCEPT !.at = at, !.progs = progs]
Next == \/ c.at = 0 /\ \E k \in {"cut", "pre", "sched"}, f \in BOOLEAN : c' = [c EXCEPT !.at = 1, !.kind = k, !.fresh = f]
        \/ c.at = 1 /\ \E op \in {a.op : a \in CALLS} : \E a \in {x \in CALLS : x.op = op} : Choose(2, <<<<a>>>>)
        \/ c.at = 2 /\ c.kind = "cut" /\ \E e \in EXCS : c' = [c EXCEPT !.exc = e, !.at = 9]
        \/ c.at = 2 /\ c.kind = "pre" /\ \E op \in HEAVY : \E a \in {x \in CALLS : x.op = op} : Choose(9, Append(c.progs, <<a>>))
        \/ c.at = 2 /\ c.kind \in {"pre", "sched"} /\ Last(c.progs)[1].x \in TWINNED /\ \E z \in 1..10 : Choose(IF c.kind = "pre" THEN 9 ELSE 4, Append(c.progs, <<[Last(c.progs)[1] EXCEPT !.x = Twin(@)]>>))
        \/ c.at = 2 /\ c.kind = "sched" /\ \E a \in CALLS : Choose(3, Append(c.progs, <<a>>))
        \/ c.at = 3 /\ \E a \in Heavy : Choose(4, [c.progs EXCEPT ![1] = Append(@, a)])
        \/ c.at = 3 /\ \E a \in Heavy : Choose(4, Append(c.progs, <<a>>))
        \/ c.at = 3 /\ \E a \in Heavy : Choose(4, Append(c.progs, <<c.progs[1][1], a>>))   \* the same call twice at once
        \/ c.at = 4 /\ \E t \in TURNS, u \in TURNS : \E v \in TURNS, w \in TURNS : c' = [c EXCEPT !.at = 5, !.turns = <<t, u, v, w>>]
        \/ c.at = 5 /\ c' = [c EXCEPT !.at = 9]
        \/ c.at = 5 /\ \E t \in 1..Len(c.progs), p \in 0..15, e \in EXCS : c' = [c EXCEPT !.at = 9, !.cut = <<t, p>>, !.exc = e]
        \/ c.at = 9 /\ Emit(c) /\ c' = [c EXCEPT !.at = 10]
Spec == Init /\ [][Next]_c
=============================================================================
