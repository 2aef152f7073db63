------------------------------- MODULE SogGen -------------------------------
EXTENDS Sog, Json
FILES == {"meta.json", "means_l.webp", "means_u.webp", "quats.webp", "scales.webp", "sh0.webp", "shN_centroids.webp", "shN_labels.webp"}
(* no fault; a file missing, damaged, or with fewer pixels than gaussians; a count beyond what the textures hold *)
FAULTS == {[how |-> "none", file |-> ""], [how |-> "count", file |-> ""], [how |-> "palette", file |-> ""]}
          \cup {[how |-> h, file |-> f] : h \in {"missing", "damaged"}, f \in FILES}
          \cup {[how |-> "ranges", file |-> a] : a \in {"means", "scales", "sh0"}}
          \cup {[how |-> "small", file |-> f] : f \in FILES \ {"meta.json"}}
VARIABLES c
Init == c = [n |-> -1]
Unit(v, n, d, s, p, t, x, u, flat) ==
  [far |-> 0, u |-> u, flat |-> flat, v |-> v, n |-> n, d |-> d, shape |-> s, px |-> p, tag |-> t, ch |-> x.ch, pal |-> x.pal, over |-> x.over, shn0 |-> x.shn0, fault |-> x.f]
Case(v, n, d, s, p, t, x) == Unit(v, n, d, s, p, t, x, 0, FALSE)
None == [how |-> "none", file |-> ""]
Next == /\ c.n = -1
        /\ \/ \E v \in {2, 3}, n \in {0, 1, 2, 5, 63, 64, 65, 130, 300, 1200}, d \in 0..3, s \in {"row", "col", "square", "four", "slack", "mixed"},
                p \in {"rand", "ends", "same"}, t \in {"valid", "any", "edge"}, ch \in {"rgba", "rgb"}, pal \in {1, 63, 64, 65, 300}, over \in BOOLEAN :
                /\ (d = 0 => pal = 1)
                /\ (p # "rand" => s \in {"square", "mixed"} /\ pal \in {1, 65})
                /\ (n = 1200 => p = "rand" /\ s = "mixed" /\ t = "any" /\ pal \in {1, 300})
                /\ c' = Case(v, n, d, s, p, t, [ch |-> ch, pal |-> pal, over |-> over, shn0 |-> over, f |-> None])
           \* long palettes: labels use both bytes
           \/ \E v \in {2, 3}, n \in {65, 300}, d \in 1..3, pal \in {256, 257, 4095, 5000, 40000, 65536}, over \in BOOLEAN :
                /\ (pal > 5000 => d = 1)
                /\ c' = Case(v, n, d, "mixed", "rand", "valid", [ch |-> "rgba", pal |-> pal, over |-> over, shn0 |-> FALSE, f |-> None])
           \* wide, narrow, hair-thin and no ranges
           \/ \E v \in {2, 3}, n \in {1, 5, 65, 300}, d \in {0, 1, 3}, p \in {"rand", "ends"}, u \in {-4, 0, 8, 20}, flat \in BOOLEAN :
                /\ (u # 0 \/ flat)
                /\ c' = Unit(v, n, d, "mixed", p, "valid", [ch |-> "rgba", pal |-> IF d = 0 THEN 1 ELSE 65, over |-> FALSE, shn0 |-> FALSE, f |-> None], u, flat)
           \* behind so many others that no 16-bit number reaches them
           \/ \E v \in {2, 3}, n \in {1, 65}, d \in {0, 1, 3}, s \in {"square", "four"}, ch \in {"rgba", "rgb"}, pal \in {65, 300} :
                /\ (d = 0 => pal = 65)
                /\ c' = [Case(v, n, d, s, "rand", "valid", [ch |-> ch, pal |-> pal, over |-> FALSE, shn0 |-> FALSE, f |-> None]) EXCEPT !.far = 66000]
           \/ \E v \in {2, 3}, n \in {1, 2, 5, 65, 300}, d \in 0..3, s \in {"row", "square", "mixed"}, f \in FAULTS \ {None} :
                /\ (f.file \in {"shN_centroids.webp", "shN_labels.webp"} => d > 0)
                /\ (f.how = "ranges" /\ f.file # "means" => v = 3)
                /\ (f.how = "palette" => d > 0 /\ v = 2)
                /\ c' = Case(v, n, d, s, "rand", "valid", [ch |-> "rgba", pal |-> 65, over |-> FALSE, shn0 |-> FALSE, f |-> f])
        /\ PrintT("CASE " \o ToJson(c'))
Spec == Init /\ [][Next]_c
=============================================================================
