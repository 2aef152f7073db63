----------------------------- MODULE DetectGen -----------------------------
(* Profiles on, just below and just above each threshold. *)
EXTENDS Detect, Json
NS == {0, 1, 2, 3, 7, 10, 19, 20, 21, 40, 100, 333, 66666}
Clip(S, hi) == {x \in S : x >= 0 /\ x <= hi}
Neg(n) == Clip({0, 1, (3 * n) \div 10 - 1, (3 * n) \div 10, (3 * n) \div 10 + 1, (3 * n) \div 2, 3 * n}, 3 * n)
Inr(n) == Clip({0, 1, (9 * n) \div 10 - 1, (9 * n) \div 10, (9 * n) \div 10 + 1, (19 * n) \div 20, (19 * n) \div 20 + 1, n - 1, n}, n)
\* how a magnitude class is realised, and on which side of zero the extreme value sits
MAGS == {<<"lt", "tiny">>, <<"lt", "zero">>, <<"lt", "just">>, <<"lt", "mid">>, <<"eq", "ten">>, <<"gt", "just">>, <<"gt", "big">>,
         <<"gt", "inf">>, <<"nan", "nan">>}
INS == {"ends", "mid", "zero"}
OUTS == {"just", "far", "nan", "inf"}
VARIABLES c
Init == c = [n |-> -1]
Next == /\ c.n = -1
        /\ \E n \in NS : \E neg \in Neg(n), inr \in Inr(n), m \in MAGS, xneg \in BOOLEAN, i \in INS, o \in OUTS, mix \in 0..3 :
            /\ (n = 0 => m = <<"lt", "mid">> /\ ~xneg /\ i = "mid" /\ o = "far")
            /\ (neg = 0 => ~xneg) /\ (n > 0 /\ neg = 3 * n => xneg)
            /\ (m[2] \in {"nan", "zero"} => ~xneg) /\ (m[2] = "nan" => neg < 3 * n) /\ (m[2] = "zero" => neg = 0)
            /\ (inr = 0 => i = "mid") /\ (inr = n => o = "far")
            /\ (n = 66666 => neg \in {0, 1, (3 * n) \div 10 + 1} /\ inr \in {0, (19 * n) \div 20, (19 * n) \div 20 + 1, n} /\ m[2] \in {"just", "mid"} /\ i = "mid" /\ o = "far" /\ mix = 0)
            /\ c' = [n |-> n, neg |-> neg, mag |-> m[1], how |-> m[2], xneg |-> xneg, inr |-> inr, inside |-> i, outside |-> o, mix |-> mix]
            /\ PrintT("CASE " \o ToJson(c'))
Spec == Init /\ [][Next]_c
=============================================================================
