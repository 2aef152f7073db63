------------------------------ MODULE MasksGen ------------------------------
EXTENDS Masks, Json
NS == {0, 1, 2, 5, 63, 1000, 20011}
LS == {1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}
Marks(L) == SetToSeq({j \in {1, 2, L \div 2, 8, 9, 32, 33, 64, 65, 128, 129, 256, 257, L - 1, L} : j >= 1 /\ j <= L})
HISTS == {"none", "dropfirst", "dropmid", "droplast", "dropto1", "readd", "copy", "slice", "move", "filter", "join", "pack"}
SELS == {"all", "none", "first", "last", "ends", "rev", "odd", "marks", "twice", "unknown"}
Sel(w, c) == LET s == Layers(c) n == Len(s) IN
  CASE w \in {"all", "none"} -> <<>> [] w = "first" -> <<s[1]>> [] w = "last" -> <<s[n]>> [] w = "ends" -> <<s[n], s[1]>>
    [] w = "rev" -> Reverse(s) [] w = "odd" -> SelectSeq(s, LAMBDA x : x % 2 = 1) [] w = "marks" -> SelectSeq(s, LAMBDA x : x \in Range(c.J))
    [] w = "twice" -> <<s[n], s[1], s[n]>> [] OTHER -> <<s[1], c.L + 5>>
VARIABLES c
Init == c = [n |-> -1]
Next == /\ c.n = -1
        /\ \E n \in NS, L \in LS, k \in {"array", "tensor"}, lay \in {"sep", "packed"}, m \in {"and", "or"}, h \in HISTS, w \in SELS,
              how \in {"combine", "apply", "applyin"}, d \in {0, 2} :
             /\ (lay = "sep" => d = 2) /\ (L > 9 => n \in {5, 1000, 20011}) /\ (h # "none" => w \in {"all", "rev", "ends", "marks"})
             /\ (h \in {"dropfirst", "dropmid", "droplast"} => L >= 2) /\ (h = "slice" => n # 0)
             /\ (L > 70 => n = 1000) /\ (n = 20011 => L \in {1, 2, 3, 33, 65} /\ h \in {"none", "readd", "dropmid"})
             /\ (k = "tensor" /\ L > 129 => FALSE)
             /\ LET b == [n |-> n, L |-> L, J |-> Marks(L), kind |-> k, lay |-> lay, mode |-> m, hist |-> h, how |-> how, d |-> d,
                          all |-> w = "all", w |-> w, sel |-> <<>>] IN c' = [b EXCEPT !.sel = Sel(w, b)]
             /\ PrintT("CASE " \o ToJson(c'))
Spec == Init /\ [][Next]_c
=============================================================================
