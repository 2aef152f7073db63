----------------------------- MODULE CodecModel -----------------------------
(***************************************************************************)
(* Design check of the format on small parameters: every scene of up to     *)
(* NMAX one-coordinate Gaussians, every admissible encoding, decoded.       *)
(* Runs of 2, M = 3 steps, SH codes, smallest-three with few bits.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS UMAX, NMAX, M, RUNLEN

Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
LIM == UMAX - 1

VARIABLES scene, enc, dec, stage
vars == <<scene, enc, dec, stage>>
RunRows(j, n) == (RUNLEN * (j - 1) + 1)..Min2(RUNLEN * j, n)
NRuns(n) == (n + RUNLEN - 1) \div RUNLEN
RunOf(i) == (i - 1) \div RUNLEN + 1
MinS(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxS(S) == CHOOSE m \in S : \A x \in S : m >= x

Nearest(q, u, lo, hi) == LET v == Clamp(u, lo, hi) IN 2 * Abs(q * (hi - lo) - (v - lo) * M) <= hi - lo

(* the bounds are limited as log-scales are *)
Bounds(s) == [j \in 1..NRuns(Len(s)) |->
                LET vs == {s[i] : i \in RunRows(j, Len(s))}
                IN <<Clamp(MinS(vs), -LIM, LIM), Clamp(MaxS(vs), -LIM, LIM)>>]
Codes(s, b) == {c \in [1..Len(s) -> 0..M] :
                  \A i \in 1..Len(s) : Nearest(c[i], s[i], b[RunOf(i)][1], b[RunOf(i)][2])}
(* decoded values are rationals over M *)
Dec(c, b) == [i \in DOMAIN c |-> b[RunOf(i)][1] * M + c[i] * (b[RunOf(i)][2] - b[RunOf(i)][1])]

Init == scene \in UNION {[1..k -> (-UMAX)..UMAX] : k \in 0..NMAX} /\ enc = <<>> /\ dec = <<>> /\ stage = "scene"
Encode == stage = "scene" /\ stage' = "encoded"
          /\ LET b == Bounds(scene) IN \E c \in Codes(scene, b) : enc' = [b |-> b, c |-> c]
          /\ UNCHANGED <<scene, dec>>
Decode == stage = "encoded" /\ stage' = "decoded" /\ dec' = Dec(enc.c, enc.b) /\ UNCHANGED <<scene, enc>>
Next == Encode \/ Decode
Spec == Init /\ [][Next]_vars

(* every scene can be encoded *)
Encodable == stage = "scene" => Codes(scene, Bounds(scene)) # {}
(* every value comes back to within half a step of its own run, at its own index *)
HalfStep == stage = "decoded" =>
  /\ DOMAIN dec = DOMAIN scene
  /\ \A i \in DOMAIN dec : LET b == enc.b[RunOf(i)] IN
        2 * Abs(dec[i] - M * Clamp(scene[i], -LIM, LIM)) <= b[2] - b[1]
(* extremes of a run are exact *)
Extremes == stage = "decoded" => \A i \in DOMAIN dec : LET b == enc.b[RunOf(i)] v == Clamp(scene[i], -LIM, LIM) IN
        (v = b[1] \/ v = b[2]) => dec[i] = M * v
(* order inside a run is preserved (weakly) *)
Monotone == stage = "decoded" => \A i, j \in DOMAIN dec :
        (RunOf(i) = RunOf(j) /\ scene[i] <= scene[j]) => (dec[i] <= dec[j] \/ 2 * Abs(scene[i] - scene[j]) * M <= 0)
(* encoding the decoded scene again gives the same codes (units scaled by M) *)
Stable == stage = "decoded" => \A i \in DOMAIN dec :
        LET b == enc.b[RunOf(i)] lo == b[1] * M hi == b[2] * M
            v == dec[i]
        IN lo # hi => \A q \in 0..M : (2 * Abs(q * (hi - lo) - (v - lo) * M) <= hi - lo => q = enc.c[i])
=============================================================================
