------------------------------ MODULE ExactGen ------------------------------
EXTENDS Exact, Json
VARIABLES c
(* one or two more operands, in other types and layouts *)
ODD == {<<>>, <<"means", "f8">>, <<"scales", "f8">>, <<"opacities", "f2">>, <<"quats", "f4">>, <<"sh0", "f8">>, <<"shN", "f8">>, <<"shN", "f4">>, <<"means", "f4">>, <<"sh0", "i4">>, <<"quats", "u1">>}
LAYS(k) == IF k = "np" THEN {"sep", "packed", "view", "strided"} ELSE {"sep", "packed", "view"}
OperandsOf(b) == {o \in [k : {b.k}, n : {b.n}, d : {b.d}, lay : {"sep", "packed", "view", "strided"}, dt : {"f2", "f4", "f8", "i4"}, odd : ODD, salt : 0..2] :
              /\ o.lay \in LAYS(o.k)
              /\ (o.dt = "i4" => o.k = "np" /\ o.lay \in {"sep", "strided"})
              /\ (o.odd # <<>> => /\ o.lay \in {"sep", "strided"} /\ o.odd[2] # o.dt /\ (o.odd[1] = "shN" => o.d > 0)
                                  /\ (o.k = "pt" => o.odd[2] \in FLOATS))}
TYPES == {<<"f4", "f8">>, <<"f8", "f4">>, <<"f2", "f4">>, <<"f4", "f2">>, <<"f8", "f8">>, <<"i4", "f4">>, <<"f4", "i4">>, <<"f2", "f8">>}
\* operands after the first follow from a choice of types and layout
Mate(o, dt, lay, n, salt) == [k |-> o.k, n |-> n, d |-> o.d, lay |-> lay, dt |-> dt, odd |-> <<>>, salt |-> salt]
Mates(o) ==
  {<<Mate(o, t[1], IF t[1] = "i4" THEN "sep" ELSE lay, 2, 3), Mate(o, t[2], "sep", 1, 5)>> :
     t \in {t \in TYPES : o.k = "pt" => {t[1], t[2]} \subseteq FLOATS}, lay \in {"sep", "packed"}}
OPS == NPOPS \cup PTOPS
Kind(a, k) == IF a \in {"tensor", "tensor_f8", "tensor_f2", "tensor_mask"} THEN "pt" ELSE IF a \in {"array", "plydata"} THEN "np" ELSE k
Tables(os) == [i \in 1..Len(os) |-> LET s == Made(os[i]) IN [f \in DOMAIN s.v |-> [dt |-> s.dts[f], v |-> [r \in 1..s.n |-> [q \in 1..Len(s.v[f][r]) |-> s.v[f][r][q][1]]]]]]
(* a walk: choose the container, its companions, then one, two or three operations *)
KindNow == LET ch == SelectSeq(c.ops, LAMBDA a : a \in {"tensor", "tensor_f8", "tensor_f2", "tensor_mask", "array", "plydata"}) IN
           IF ch = <<>> THEN c.os[1].k ELSE Kind(Last(ch), "np")
Now == [i \in 1..Len(c.os) |-> [k |-> IF i = 1 THEN KindNow ELSE c.os[i].k, n |-> c.os[i].n]]
Init == c = [at |-> 0, os |-> <<>>, ops |-> <<>>]
Emit(d) == PrintT("CASE " \o ToJson([os |-> d.os, ops |-> d.ops, tables |-> Tables(d.os)]))
Next == \/ c.at = 0 /\ \E k \in {"np", "pt"}, n \in {0, 1, 4}, d \in {0, 1, 3} : c' = [c EXCEPT !.at = 1, !.os = <<[k |-> k, n |-> n, d |-> d]>>]
        \/ c.at = 1 /\ \E o \in {x \in OperandsOf(c.os[1]) : TRUE} : c' = [c EXCEPT !.at = 2, !.os = <<o>>]
        \/ c.at = 2 /\ c' = [c EXCEPT !.at = 3]
        \/ c.at = 2 /\ \E ms \in Mates(c.os[1]) : c' = [c EXCEPT !.at = 20, !.os = @ \o ms]
        \/ c.at = 20 /\ \E a \in {x \in {"add", "plus", "radd", "concat", "sum"} : Able(x, Now)} : c' = [c EXCEPT !.at = 4, !.ops = <<a>>]
        \/ c.at \in 3..5 /\ \E a \in {x \in OPS : Able(x, Now) /\ (c.ops # <<>> => Last(c.ops) # "tuple")} : c' = [c EXCEPT !.at = @ + 1, !.ops = Append(@, a)]
        \/ c.at \in 4..5 /\ c' = [c EXCEPT !.at = 6]
        \/ c.at \in 4..5 /\ c' = [c EXCEPT !.at = 7]   \* twice: shorter walks are as frequent as longer ones
        \/ c.at \in 6..7 /\ Emit(c) /\ c' = [c EXCEPT !.at = 9]
Spec == Init /\ [][Next]_c
=============================================================================
