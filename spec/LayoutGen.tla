------------------------------ MODULE LayoutGen ------------------------------
(* Scenes and the values they hold; every case is written through every entry point. *)
EXTENDS Layout, Json
NS == {0, 1, 2, 5, 17, 63, 255, 256, 257, 300, 66000}
VALS == {"bits", "plain", "special", "same"}
DTYPES == {"f4", "f8", "f4be", "f2"}
ORDERS == {"c", "f", "strided", "ro", "rev"}
VARIABLES c
Init == c = [n |-> -1]
Next == c.n = -1 /\ \E n \in NS, d \in 0..3, v \in VALS, dt \in DTYPES, o \in ORDERS, m \in 0..2 :
            /\ (dt # "f4" => v = "plain") /\ (n = 66000 => v = "bits" /\ m = 0 /\ o \in {"c", "f"})
            /\ c' = [n |-> n, d |-> d, vals |-> v, dt |-> dt, order |-> o, mix |-> m]
            /\ PrintT("CASE " \o ToJson(c'))
Spec == Init /\ [][Next]_c
=============================================================================
