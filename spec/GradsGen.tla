------------------------------ MODULE GradsGen ------------------------------
EXTENDS Grads, Json
VARIABLES c
Init == c = [at |-> 0, d |-> 0, kinds |-> <<>>, ops |-> <<>>, cs |-> <<>>, last |-> 0, fin |-> ""]
Emit(x) == PrintT("CASE " \o ToJson([d |-> x.d, kinds |-> x.kinds, ops |-> x.ops, last |-> x.last, fin |-> x.fin]))
Kind(how, t, lab, col, n) == [how |-> how, track |-> SetToSeq(IF how \in {"loaded", "loadedp", "packed"} THEN FIELDS ELSE t), lab |-> lab, col |-> col, n |-> n]
Do(o) == Can(c.cs, o, c.kinds) /\ CanIn(c.cs, o) /\ c' = [c EXCEPT !.ops = Append(@, o), !.cs = Step(@, o), !.at = @ + 1]
K == Len(c.cs)
Next == \/ c.at = 0 /\ \E d \in 0..3 : c' = [c EXCEPT !.at = 1, !.d = d]
        \* units are shared by most sources, so that they can be combined
        \/ c.at = 1 /\ \E h \in HOWS, t \in Tracks, l \in {"ply", "lin"}, col \in {"sh", "rgb"}, n \in 2..4 :
              c' = [c EXCEPT !.at = 2, !.kinds = <<Kind(h, t, l, col, n)>>]
        \/ c.at = 2 /\ \E h \in HOWS, t \in Tracks, same \in {TRUE, FALSE}, n \in 1..3 :
              LET a == c.kinds[1] IN
              c' = [c EXCEPT !.at = 3, !.kinds = Append(@, Kind(h, t, IF same \/ a.lab = "lin" THEN a.lab ELSE "lin", IF same THEN a.col ELSE "sh", n)),
                             !.cs = Begin(Append(c.kinds, Kind(h, t, IF same \/ a.lab = "lin" THEN a.lab ELSE "lin", IF same THEN a.col ELSE "sh", n)))]
        \/ c.at \in 3..9 /\ \E i \in 1..K, j \in 0..2, k \in 1..4, o \in {"slice", "pick", "bool", "filter"} : Do(Op(o, i, j, k, "out"))
        \/ c.at \in 3..9 /\ \E i \in 1..K, j \in 0..3, o \in {"one", "step"} : Do(Op(o, i, j, 0, "out"))
        \/ c.at \in 3..9 /\ \E i \in 1..K, k \in 1..4 : Do(Op("filter", i, 0, k, "in"))
        \/ c.at \in 3..9 /\ \E i \in 1..K, o \in {"norm", "denorm"}, e \in {"in", "out"}, k \in 1..3 : Do(Op(o, i, 0, k, e))
        \/ c.at \in 3..9 /\ \E i \in 1..K, o \in {"clone", "pack", "rgb", "sh", "plyt", "double", "half", "float", "cpu"}, k \in 1..2 : Do(Op(o, i, 0, k, "out"))
        \/ c.at \in 3..9 /\ \E i \in 1..K, j \in 1..K, o \in {"add", "plus", "sum"}, k \in 1..4 : Do(Op(o, i, j, k, "out"))
        \/ c.at \in 3..9 /\ \E i \in 1..K, o \in OBSERVERS : Do(Op(o, i, 0, 0, ""))
        \* the loss is of the newest container, or of an older one
        \/ c.at \in 5..10 /\ \E f \in {"fields", "unpack", "dict", "tuple"}, q \in {K, 0} : c' = [c EXCEPT !.at = IF q = 0 THEN 11 ELSE 12, !.fin = f, !.last = q]
        \/ c.at = 11 /\ \E q \in 1..K : c' = [c EXCEPT !.at = 12, !.last = q]
        \/ c.at = 12 /\ Emit(c) /\ c' = [c EXCEPT !.at = 13]
Spec == Init /\ [][Next]_c
=============================================================================
