---------------------------- MODULE CurvesModel ----------------------------
(* The tables of Curves obey the equations of the curves they stand for. *)
EXTENDS Curves, Sequences, TLC
VARIABLE k
Init == k \in -KMAX..KMAX
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Abs(x) == IF x < 0 THEN -x ELSE x
E(x) == ExpTab[x + KMAX + 1]
S(x) == SigTab[x + KMAX + 1]
\* m * 1.2840254167, the step exp(1/4)
Times(m) == m + 2 * (m \div 10) + 8 * (m \div 100) + 4 * (m \div 1000) + 2 * (m \div 100000) + 5 * (m \div 1000000) + 4 * (m \div 10000000)
            + (m \div 100000000)
Shape == E(k)[1] \in 100000000..999999999 /\ S(k)[1] \in 100000000..999999999
ExpStep == k < KMAX => LET a == E(k) b == E(k + 1) IN
             IF a[2] = b[2] THEN Abs(Times(a[1]) - b[1]) < 60 ELSE b[2] = a[2] + 1 /\ Abs(Times(a[1]) \div 10 - b[1]) < 60
ExpOne == E(0) = <<100000000, 0>>
\* hundred-millionths of a value below ten
Fix(x) == IF x[2] = 0 THEN x[1] ELSE IF x[2] < -9 THEN 0 ELSE x[1] \div (10 ^ (-x[2]))
SigSym == Abs(Fix(S(k)) + Fix(S(-k)) - 100000000) <= 2
SigHalf == S(0) = <<500000000, -1>>
\* for k << 0: sigmoid = exp - exp^2 + ...; the table lies between exp - exp^2 and exp
SigExp == k <= -40 => S(k)[2] \in {E(k)[2], E(k)[2] - 1} /\
            LET a == IF S(k)[2] = E(k)[2] THEN S(k)[1] ELSE S(k)[1] \div 10 IN a <= E(k)[1] /\ E(k)[1] - a <= 1 + E(k)[1] \div 10000
SigUp == k < KMAX => LET a == S(k) b == S(k + 1) IN a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <= b[1])
LogitSym == k \in 1..63 => LogitTab[k] = -LogitTab[64 - k]
LogitUp == k \in 1..62 => LogitTab[k] < LogitTab[k + 1]
LogitTwo == k \in 1..6 => TwoTab[k] = -LogitTab[2 ^ (6 - k)]
LogitThree == \* p = 3/4: log 3; p = 9/10 is not on the grid; p = 1/3 neither
              LogitTab[48] = LN3
TwoStep == k \in 1..23 => LET d == TwoTab[k + 1] - TwoTab[k] IN d >= LN2 - 1 /\ d <= LN2 + 2 + 1000000 \div (2 ^ k - 1) 
=============================================================================
