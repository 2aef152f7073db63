---------------------------- MODULE DetectModel ----------------------------
(* Facts about the rule itself, over every profile of small scenes: both verdicts exist, each is independent of the other
   quantity, a scene of clear kind is never read as the other, adding a negative scale never turns PLY into LINEAR. *)
EXTENDS Detect
CONSTANT MAXN
VARIABLES p
Init == p \in [n : 0..MAXN, neg : 0..3 * MAXN, mag : {"lt", "eq", "gt", "nan"}, inr : 0..MAXN]
        /\ p.neg <= 3 * p.n /\ p.inr <= p.n
\* the values of one gaussian change
Next == /\ p.n > 0
        /\ \/ p.neg < 3 * p.n /\ p' = [p EXCEPT !.neg = @ + 1]
           \/ p.inr > 0 /\ p' = [p EXCEPT !.inr = @ - 1]
           \/ p.mag = "lt" /\ p' = [p EXCEPT !.mag = "gt"]
Spec == Init /\ [][Next]_p
Known == Auto(p) \in {"PLY", "LINEAR"} \X {"PLY", "LINEAR"}
EmptyPly == p.n = 0 => Auto(p) = <<"PLY", "PLY">>
Independent == \A q \in [n : {p.n}, neg : {p.neg}, mag : {p.mag}, inr : 0..p.n] : ScalesOf(q) = ScalesOf(p)
LinearIsPositive == ScalesOf(p) = "LINEAR" => p.neg = 0 /\ p.mag = "lt"
LinearIsInside == OpacOf(p) = "LINEAR" => 20 * p.inr > 19 * p.n
ClearLinear == p.n > 0 /\ p.neg = 0 /\ p.mag = "lt" /\ p.inr = p.n => Auto(p) = <<"LINEAR", "LINEAR">>
\* towards log scales and logits there is no way back
Monotone == [][(ScalesOf(p) = "PLY" => ScalesOf(p') = "PLY") /\ (OpacOf(p) = "PLY" => OpacOf(p') = "PLY")]_p
=============================================================================
