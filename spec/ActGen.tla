------------------------------- MODULE ActGen -------------------------------
EXTENDS Act, Json
DATA == {"act", "deact", "actdeact", "deactact"}                       \* free functions with limits
METHODS == {"denormalize", "normalize", "denorm", "normden"}           \* methods: denorm and back, norm and back
ELEM == {"sigmoid", "logit", "logitsig", "siglogit", "sh2rgb", "rgb2sh", "shrgbsh", "rgbshrgb"}
COLOUR == {"to_rgb", "to_sh", "rgbsh"}
NS == {0, 1, 2, 3, 7, 64, 257, 4099}
VARIABLES c
Emit == PrintT("CASE " \o ToJson(c'))
Sized(ns, w, es, dts, lays, lims) == \E e \in es, dt \in dts, lay \in lays, l \in lims, n \in ns, i \in BOOLEAN, seed \in 0..1 :
   /\ (w = "fun" => i) /\ (lay = "scalar" => n = 64 /\ seed = 0) /\ (lay = "zerod" => n = 64)
   /\ c' = [w |-> w, e |-> e, dt |-> dt, lay |-> lay, lim |-> l, n |-> n, inplace |-> i, seed |-> seed]
Pick(w, es, dts, lays, lims) == Sized(NS, w, es, dts, lays, lims)
Init == c = [w |-> "none"]
Next == /\ c.w = "none"
        /\ \/ Pick("data", DATA, {"f4", "f8", "f2"}, {"c", "strided", "f", "rev", "packed", "col"}, {"std", "pow", "one", "wide", "sub"})
           \/ Pick("data", METHODS, {"f4", "f8"}, {"c", "strided", "f", "packed"}, {"std"})
           \/ Pick("tensor", METHODS, {"f4", "f8"}, {"c", "strided", "packed"}, {"std"})
           \/ Pick("tensor", METHODS, {"f2"}, {"c", "strided", "packed"}, {"std"})
           \/ Pick("data", COLOUR, {"f4", "f8"}, {"c", "strided", "f", "packed"}, {"std"})
           \/ Pick("tensor", COLOUR, {"f4", "f8"}, {"c", "strided", "packed"}, {"std"})
           \/ Pick("fun", ELEM, {"f4", "f8", "i8", "i4"}, {"c", "strided", "f2d", "c2d", "rev", "ro", "zerod", "scalar"}, {"std", "pow", "one", "wide"})
           \* more than 16-bit row numbers reach
           \/ Sized({66049}, "data", DATA \cup COLOUR, {"f4"}, {"c", "packed"}, {"std"})
           \/ Sized({66049}, "tensor", METHODS \cup COLOUR, {"f4"}, {"c"}, {"std"})
           \/ Sized({66049}, "fun", ELEM, {"f4", "f8"}, {"c"}, {"std"})
        /\ Emit
Spec == Init /\ [][Next]_c
=============================================================================
