----------------------------- MODULE ShapesModel -----------------------------
(* The design: check all shapes first, then copy row by row.  No copied row comes from outside its array, every stored scene has all its rows, and
   a refused scene stores nothing.  CHECKED = FALSE is the design without the check, which breaks all of that. *)
EXTENDS Shapes
CONSTANTS CHECKED, N
VARIABLES c, pc, row, out, foreign
vars == <<c, pc, row, out, foreign>>
Some == {<<>>} \cup {<<<<f, m>>>> : f \in {"means", "scales", "opacities", "shN"}, m \in MUTS}
        \cup {<<<<"means", m>>, <<f, m>>>> : f \in {"scales", "shN"}, m \in {"short", "long", "one"}}
Init == /\ c \in {[n |-> n, k |-> k, muts |-> ms] : n \in 0..N, k \in {0, 3}, ms \in Some}
        /\ pc = "check" /\ row = 0 /\ out = 0 /\ foreign = FALSE
Check == /\ pc = "check" /\ pc' = IF CHECKED /\ ~Loose(c) THEN "refused" ELSE "copy"
         /\ UNCHANGED <<c, row, out, foreign>>
Copy == /\ pc = "copy" /\ row < Rows(c) /\ row' = row + 1 /\ out' = out + 1
        /\ foreign' = (foreign \/ \E f \in Range(FIELDS) : Shape(c, f)[1] <= row)
        /\ UNCHANGED <<c, pc>>
Finish == pc = "copy" /\ row >= Rows(c) /\ pc' = "stored" /\ UNCHANGED <<c, row, out, foreign>>
Next == Check \/ Copy \/ Finish
Spec == Init /\ [][Next]_vars
NoForeign == ~foreign
Whole == pc = "stored" => out = Rows(c) /\ \A f \in Range(FIELDS) : Shape(c, f)[1] = out
RefusedClean == pc = "refused" => out = 0
Total == Scene(c) => pc # "refused"
=============================================================================
