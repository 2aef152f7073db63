------------------------------- MODULE TornGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
WU == {"plywrite", "save", "packed", "gt_save"}
WC == {"plywrite", "save", "bytes", "gt_save", "plywrite_gpu", "gt_compressed"}
NU == {0, 1, 2, 4, 7, 30}
NC == {0, 1, 2, 5, 20, 255, 256, 257, 300}
NAMES == {"a.ply", "a.compressed.ply", "a.ply_compressed", "a.dat"}
VARIABLES c
Init == c = [n |-> -1]
Next == /\ c.n = -1
        /\ \/ \E w \in WU, n \in NU, d \in 0..3, x \in NAMES : c' = [kind |-> "u", w |-> w, n |-> n, d |-> d, name |-> x, v |-> 0, long |-> FALSE]
           \/ \E w \in WC, n \in NC, d \in 0..3, x \in NAMES : c' = [kind |-> "c", w |-> w, n |-> n, d |-> d, name |-> x, v |-> 0, long |-> FALSE]
           \/ \E k \in {"u", "c"}, n \in {0, 1, 2, 5}, d \in {0, 1, 3}, x \in NAMES :   \* a long header full of comments
                c' = [kind |-> k, w |-> "plywrite", n |-> n, d |-> d, name |-> x, v |-> 0, long |-> TRUE]
           \/ \E v \in {2, 3}, w \in {"stored", "deflated"}, n \in {1, 5, 20}, d \in 0..3 :
                c' = [kind |-> "sog", w |-> w, n |-> n, d |-> d, name |-> "a.sog", v |-> v, long |-> FALSE]
        /\ PrintT("CASE " \o ToJson(c'))
Spec == Init /\ [][Next]_c
=============================================================================
