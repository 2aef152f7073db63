------------------------------ MODULE LoadsGen ------------------------------
EXTENDS Loads, Json
VARIABLES c
Init == c = [at |-> 0, n |-> 0, d |-> 0, ops |-> <<>>, m |-> <<>>]
Emit(x) == PrintT("CASE " \o ToJson([n |-> x.n, d |-> x.d, ops |-> x.ops]))
Do(o) == Able(c.m, o) /\ c' = [c EXCEPT !.ops = Append(@, o), !.m = Step(@, o), !.at = @ + 1]
Next == \/ c.at = 0 /\ \E n \in {0, 1, 5, 300}, d \in {0, 1, 3} : c' = [c EXCEPT !.at = 1, !.n = n, !.d = d, !.m = Model0([d |-> d])]
        \* the first step makes a scene
        \/ c.at = 1 /\ \E j \in 1..3 : \E e \in READERS(j) : Do(Op("load", 0, j, e))
        \/ c.at = 1 /\ \E j \in 1..2 : \E e \in DECODERS(j) : Do(Op("dec", 0, j, e))
        \/ c.at \in 2..7 /\ \E j \in 1..3 : \E e \in READERS(j) : Do(Op("load", 0, j, e))
        \/ c.at \in 2..7 /\ \E j \in 1..3 : \E e \in DECODERS(j) : Do(Op("dec", 0, j, e))
        \/ c.at \in 2..7 /\ \E i \in 1..3, j \in {1, 2}, e \in {"save", "write"} : Do(Op("save", i, j, e))
        \/ c.at \in 2..7 /\ \E j \in 1..3, e \in HURTS : Do(Op("hurt", 0, j, e))
        \/ c.at \in 2..7 /\ \E j \in 1..3, o \in {"smear", "drop"} : Do(Op(o, 0, j, ""))
        \/ c.at \in 2..7 /\ \E i \in 1..3, f \in FIELDS : Do(Op("edit", i, 0, f))
        \/ c.at \in 2..7 /\ \E i \in 1..3, o \in {"bytes", "pieces"} : Do(Op(o, i, 0, ""))
        \/ c.at \in 4..8 /\ c' = [c EXCEPT !.at = 9]
        \/ c.at = 9 /\ Emit(c) /\ c' = [c EXCEPT !.at = 10]
Spec == Init /\ [][Next]_c
=============================================================================
