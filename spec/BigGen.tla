------------------------------- MODULE BigGen -------------------------------
EXTENDS Big, Json, IOUtils
VARIABLES c
\* selections in every walk; other operations unless the walk is about selections only
Rest == IOEnv.BIG # "sel"
Init == c = [at |-> 0, os |-> <<>>, ops |-> <<>>, st |-> <<>>, cats |-> 0, d |-> 0]
Emit(x) == PrintT("CASE " \o ToJson([os |-> x.os, ops |-> x.ops, d |-> x.d]))
Ob(k, n, lay, m) == [kind |-> k, n |-> n, lay |-> lay, masks |-> m]
Do(o) == /\ o.i <= Len(c.st) /\ (o.op \in {"add", "cat"} => o.a <= Len(c.st) /\ c.cats < 2) /\ Can(c.st, o)
         /\ c' = [c EXCEPT !.ops = Append(@, o), !.at = @ + 1, !.cats = @ + (IF o.op \in {"add", "cat"} THEN 1 ELSE 0),
                           !.st = Append(@, [kind |-> Kind(c.st, o), lay |-> Layers(c.st, o)])]
B == {NONE, 0, 1, 2, 255, 300, 65535, 65536, 65537, -1, -2, -300, -65536}
Next == \/ c.at = 0 /\ \E k \in {"np", "pt"}, n \in {65536, 65537, 66001}, l \in {"sep", "packed"}, m \in BOOLEAN, d \in {0, 1, 3} :
              c' = [c EXCEPT !.at = 1, !.d = d, !.os = <<Ob(k, n, l, m)>>]
        \/ c.at = 1 /\ \E n \in {1, 3, 700, 65536}, l \in {"sep", "packed"}, m \in BOOLEAN :
              LET a == c.os[1] os == <<a, Ob(a.kind, n, l, m)>> IN
              c' = [c EXCEPT !.at = 2, !.os = os, !.st = [i \in 1..2 |-> [kind |-> os[i].kind, lay |-> IF os[i].masks THEN "yes" ELSE "no"]]]
        \/ c.at \in 2..6 /\ \E i \in 1..6, a \in B, s \in {1, 2, 3, 255, 300, -1, -2, -257} :
              \E b \in B : Do(Op("slice", i, a, b, s))
        \/ c.at \in 2..6 /\ \E i \in 1..6, a \in B, b \in B, s \in {1, 2, -1, -257} : Do(Op("copyslice", i, a, b, s))
        \/ c.at \in 2..6 /\ \E i \in 1..6, a \in {2, 3, 256}, b \in {0, 1, 65534, 65535, 65536}, k \in 1..12 : Do(Op("every", i, a, b, k))
        \/ c.at \in 2..6 /\ \E i \in 1..6, a \in {0, 5, 65534, 65536}, b \in {1, 7, 257, 32003}, n \in {1, 256, 40000, 66000} : Do(Op("pick", i, a, b, n))
        \/ c.at \in 2..6 /\ \E i \in 1..6, a \in {0, 65534, 65535, 65536}, k \in 1..12 : Do(Op("one", i, a, k, 0))
        \/ c.at \in 2..6 /\ Rest /\ \E i \in 1..6, a \in 1..3, b \in 1..3, m \in 0..1, k \in 1..10 : Do([op |-> "filter", i |-> i, a |-> a, b |-> b, c |-> m])
        \/ c.at \in 2..6 /\ Rest /\ \E i \in 1..6, a \in 1..6, o \in {"add", "cat"}, k \in 1..20 : Do(Op(o, i, a, k, 0))
        \/ c.at \in 2..6 /\ \E i \in 1..6, o \in IF Rest THEN {"copy", "pack", "contig", "tensor", "arrays", "file", "pickle", "unpack"} ELSE {"pack"}, k \in 1..16 : Do(Op(o, i, k, 0, 0))
        \/ c.at \in 6..7 /\ c' = [c EXCEPT !.at = 9]
        \/ c.at = 9 /\ Emit(c) /\ c' = [c EXCEPT !.at = 10]
Spec == Init /\ [][Next]_c
=============================================================================
