------------------------------ MODULE CodecGen ------------------------------
(* The cases of the codec conformance checks: TLC enumerates them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

NS == {0, 1, 2, 7, 40, 255, 256, 257, 300, 512, 513, 600}
POS == <<"rand", "const", "two", "ramp", "outlier", "shift">>
SCL == <<"rand", "beyond", "const", "neg", "shift", "tiny">>
COL == <<"rand", "two", "shift", "const", "tiny">>
OPA == <<"rand", "ext", "const">>
ROT == <<"rand", "axis", "near">>
SHS == <<"rand", "beyond", "const">>
SRC == {"sep", "packed", "view", "pt", "lin", "rgb", "f8", "pt8", "pt2", "ptview", "ptgrad"}
MIX == 0..59

Enc(n, d, src, m) ==
  [kind |-> "enc", far |-> 0, n |-> n, d |-> d, src |-> src, mix |-> m,
   pos |-> POS[(m % 6) + 1], scl |-> SCL[((m + m \div 6) % 6) + 1], col |-> COL[((m \div 3) % 5) + 1], op |-> OPA[((m + d) % 3) + 1],
   rot |-> ROT[((m \div 2) % 3) + 1], sh |-> SHS[((m \div 5) % 3) + 1]]
Dcd(n, d, b, w) == [kind |-> "dec", far |-> 0, n |-> n, d |-> d, bnd |-> b, word |-> w, dress |-> "plain", mix |-> 0]
\* the same stream as others may write it: more bytes behind it, comments in its header
DRESS == {"tail", "longtail", "comment", "both"}

VARIABLES c
Init == c = [kind |-> "none"]
Next == /\ c.kind = "none"
        /\ \/ \E n \in NS, d \in 0..3, s \in SRC, m \in MIX : c' = Enc(n, d, s, m)
           \* scenes of several runs more
           \/ \E n \in {1280, 1300, 3000}, d \in 0..1, s \in {"sep", "packed", "pt", "view"}, m \in MIX :
                 (n = 3000 => d = 0) /\ c' = Enc(n, d, s, m)
           \/ \E n \in NS \ {0}, d \in 0..3, b \in {"rand", "const", "wide", "neg"}, w \in {"rand", "zeros", "ones", "ramp"} :
                 c' = Dcd(n, d, b, w)
           \/ \E n \in {1, 7, 40, 257, 600}, d \in 0..3, b \in {"rand", "wide"}, dr \in DRESS :
                 c' = [Dcd(n, d, b, "rand") EXCEPT !.dress = dr]
           \* the scene behind so many runs that no 16-bit row number and no 8-bit run number reaches it
           \/ \E n \in {1, 300}, d \in {0, 3}, s \in {"sep", "view", "pt"}, m \in MIX : c' = [Enc(n, d, s, m) EXCEPT !.far = 257]
           \/ \E n \in {7, 257}, d \in {0, 1}, w \in {"rand", "ramp"} : c' = [Dcd(n, d, "rand", w) EXCEPT !.far = 257]
        /\ PrintT("CASE " \o ToJson(c'))
Spec == Init /\ [][Next]_c
=============================================================================
