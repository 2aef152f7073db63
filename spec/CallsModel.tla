----------------------------- MODULE CallsModel -----------------------------
(* Why calls do not interfere: threads run calls that read the world, fill a buffer cell by cell and    *)
(* answer; an interrupt may end a call between any two steps.  Designs:                                  *)
(*   own       a buffer of the call's own                                                                *)
(*   published a table computed once per process, made by the call's own hands and then put in place     *)
(* are safe; these are not, TLC shows why when they are put into Designs:                                *)
(*   shared    one buffer of rows for all calls                                                          *)
(*   early     a table put in place before it is filled                                                  *)
(*   aside     a part of the scene is taken away while the call works and put back at the end            *)
(*   inplace   the scene is converted in place and converted back                                        *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Designs, Threads, Cells, Rounds
VARIABLES design, scene, scratch, table, thr
vars == <<design, scene, scratch, table, thr>>
Blank == [i \in 1..Cells |-> 0]
Idle == [pc |-> "idle", i |-> 0, mine |-> Blank, held |-> "", done |-> 0, wrong |-> FALSE]
Init == /\ design \in Designs /\ scene = [layers |-> "here", form |-> "ply"] /\ scratch = Blank /\ table = "none" /\ thr = [t \in Threads |-> Idle]
\* the right answer of thread t: its own number in every cell
Right(t, cells, tab, sc) == cells = [i \in 1..Cells |-> t] /\ tab = "full" /\ sc.layers = "here" /\ sc.form = "ply"
Set(t, r) == thr' = [thr EXCEPT ![t] = r]
Begin(t) == /\ thr[t].pc = "idle" /\ thr[t].done < Rounds
            /\ Set(t, [thr[t] EXCEPT !.pc = IF design = "aside" THEN "take" ELSE IF design = "inplace" THEN "convert" ELSE "table", !.i = 1, !.mine = Blank])
            /\ UNCHANGED <<design, scene, scratch, table>>
Take(t) == /\ thr[t].pc = "take" /\ Set(t, [thr[t] EXCEPT !.held = scene.layers, !.pc = "table"]) /\ scene' = [scene EXCEPT !.layers = "none"] /\ UNCHANGED <<design, scratch, table>>
Convert(t) == /\ thr[t].pc = "convert" /\ Set(t, [thr[t] EXCEPT !.pc = "table"]) /\ scene' = [scene EXCEPT !.form = "linear"] /\ UNCHANGED <<design, scratch, table>>
\* look the table up; make it when there is none
Table(t) ==
  /\ thr[t].pc = "table"
  /\ CASE table # "none" -> Set(t, [thr[t] EXCEPT !.pc = "fill"]) /\ table' = table
       [] table = "none" /\ design = "early" -> Set(t, [thr[t] EXCEPT !.pc = "finish"]) /\ table' = "half"
       [] OTHER -> Set(t, [thr[t] EXCEPT !.pc = "finish"]) /\ table' = table
  /\ UNCHANGED <<design, scene, scratch>>
Finish(t) == /\ thr[t].pc = "finish" /\ table' = "full" /\ Set(t, [thr[t] EXCEPT !.pc = "fill"]) /\ UNCHANGED <<design, scene, scratch>>
Fill(t) ==
  /\ thr[t].pc = "fill" /\ thr[t].i <= Cells
  /\ IF design = "shared" THEN scratch' = [scratch EXCEPT ![thr[t].i] = t] /\ Set(t, [thr[t] EXCEPT !.i = @ + 1])
     ELSE scratch' = scratch /\ Set(t, [thr[t] EXCEPT !.mine[thr[t].i] = t, !.i = @ + 1])
  /\ UNCHANGED <<design, scene, table>>
\* what the call sees of the scene: in the unsafe designs it knows what it did to it itself
Seen(t) == [layers |-> IF design = "aside" THEN thr[t].held ELSE scene.layers, form |-> IF design = "inplace" THEN "ply" ELSE scene.form]
End(t) ==
  /\ thr[t].pc = "fill" /\ thr[t].i > Cells
  /\ Set(t, [thr[t] EXCEPT !.pc = "idle", !.done = @ + 1, !.wrong = @ \/ ~Right(t, IF design = "shared" THEN scratch ELSE thr[t].mine, table, Seen(t))])
  /\ scene' = IF design = "aside" THEN [scene EXCEPT !.layers = thr[t].held] ELSE IF design = "inplace" THEN [scene EXCEPT !.form = "ply"] ELSE scene
  /\ UNCHANGED <<design, scratch, table>>
Cut(t) == /\ thr[t].pc # "idle" /\ Set(t, [thr[t] EXCEPT !.pc = "idle", !.done = @ + 1, !.held = ""]) /\ UNCHANGED <<design, scene, scratch, table>>
Next == \E t \in Threads : Begin(t) \/ Take(t) \/ Convert(t) \/ Table(t) \/ Finish(t) \/ Fill(t) \/ End(t) \/ Cut(t)
Spec == Init /\ [][Next]_vars
Answers == \A t \in Threads : ~thr[t].wrong
World == scene = [layers |-> "here", form |-> "ply"]
\* a table another call can see is complete
Tables == table # "half"
=============================================================================
