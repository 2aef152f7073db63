------------------------------ MODULE CrashGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
WU == {"plywrite", "save", "packed", "gt_save", "write"}
WC == {"plywrite", "save", "gt_save", "plywrite_gpu", "gt_compressed", "write"}
VARIABLES c
Init == c = [n |-> -1]
Next == /\ c.n = -1
        /\ \E k \in {"u", "c"}, w \in WU \cup WC, n \in {0, 1, 5, 255, 257, 700, 9000}, d \in {0, 1, 3}, old \in {"none", "u", "c"}, m \in {1, 40, 900} :
             /\ w \in (IF k = "u" THEN WU ELSE WC)
             /\ (old = "none" => m = 1)
             /\ (n = 9000 => d <= 1 /\ w \in {"plywrite", "packed", "gt_save"} /\ m # 40)
             /\ c' = [kind |-> k, w |-> w, n |-> n, d |-> d, old |-> old, m |-> m]
        /\ PrintT("CASE " \o ToJson(c'))
Spec == Init /\ [][Next]_c
=============================================================================
