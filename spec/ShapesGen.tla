------------------------------ MODULE ShapesGen ------------------------------
EXTENDS Shapes, Json
VARIABLES c
NS == {0, 1, 2, 5, 257}
KS == {-1, 0, 3, 8, 15, 4}
OneMut == {<<<<f, m>>>> : f \in Range(FIELDS), m \in MUTS}
\* two arrays changed alike, all but the first changed alike, or two changed differently
TwoMut == {<<<<f, m>>, <<g, m>>>> : f \in Range(FIELDS), g \in Range(FIELDS), m \in {"short", "long", "one", "empty"}}
AllMut == {[i \in 1..Len(s) |-> <<s[i], m>>] : s \in {Tail(FIELDS), FIELDS, SubSeq(FIELDS, 1, 5), SubSeq(FIELDS, 2, 5)}, m \in {"short", "long", "one", "empty"}}
Apart == {<<<<f, "short">>, <<g, "long">>>> : f \in Range(FIELDS), g \in Range(FIELDS)} \cup {<<<<"opacities", "trail">>, <<g, m>>>> : g \in Range(FIELDS), m \in {"short", "one"}}
         \cup {<<<<f, "lead">>, <<g, "lead">>>> : f \in Range(FIELDS), g \in Range(FIELDS)}
MutSets == {<<>>} \cup OneMut \cup {s \in TwoMut \cup Apart : s[1][1] # s[2][1]} \cup AllMut
Init == c = [n |-> -1]
Next == /\ c.n = -1
        /\ \E n \in NS, k \in KS, ms \in MutSets, e \in ENTRIES, old \in {TRUE, FALSE} :
             /\ (k = -1 => \A i \in 1..Len(ms) : ms[i][1] # "shN")
             /\ (old => e \in (UNC \cup COMP) \ {"bytes", "bytes_loose", "arrays"})
             /\ (n = 257 => e \in COMP /\ Len(ms) <= 1)
             /\ (Len(ms) = 2 => n \in {1, 5} /\ k \in {-1, 3, 4})
             /\ (old => Len(ms) # 2)
             /\ LET b == [n |-> n, k |-> k, muts |-> ms, e |-> e, old |-> old] IN
                  c' = b @@ [shapes |-> [f \in {x \in Range(FIELDS) : Has(b, x)} |-> Shape(b, f)]]
             /\ PrintT("CASE " \o ToJson(c'))
Spec == Init /\ [][Next]_c
=============================================================================
