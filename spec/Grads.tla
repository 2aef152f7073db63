-------------------------------- MODULE Grads --------------------------------
(* Training through tensor containers.  A source holds trainable tensors ("leaves"), one per field, of  *)
(* which some are tracked; containers derive from sources by slicing, masking, cloning, packing,        *)
(* combining, converting units and colours and changing precision.  Which Gaussian of which source      *)
(* every row of every container came from is all the state there is: the gradient a loss on a container *)
(* gives each source Gaussian is the sum of the weights the loss gave its rows, times the derivative of *)
(* the conversion between the units the source is in and the units the container is in.                 *)
(*                                                                                                      *)
(* Units of derivatives: 1/48.  Value classes of Gaussians: scales exp(0), 2, 1/2; opacities 1/2, 3/4,   *)
(* 1/4 (that is logits 0, ln 3, -ln 3), so that every derivative is a rational number.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
FIELDS == {"means", "scales", "quats", "opacities", "sh0", "shN"}
UNIT == 48
DS(a, b, v) == IF a = b THEN 48 ELSE IF a = "ply" THEN <<48, 96, 24>>[v] ELSE <<48, 24, 96>>[v]
DO(a, b, v) == IF a = b THEN 48 ELSE IF a = "ply" THEN <<12, 9, 9>>[v] ELSE <<192, 256, 256>>[v]
(* sources: how made, units, colour, number of Gaussians, which fields are tracked *)
HOWS == {"leaf", "loaded", "loadedp", "flag", "flagp", "packed", "arrays", "dict"}
Tracks == {FIELDS, {"means"}, {"scales", "opacities"}, {"sh0"}, {"shN", "quats"}, {"opacities"}, {}}
Class(s, r) == ((s + r) % 3) + 1          \* value class of Gaussian r of source s
(* containers: rows: sequence of <<source, Gaussian>>; lab, col: units; half: precision lost; own: still *)
(* the source's own leaves (0: none); dup: may be the same object as another container                  *)
Source(s, k) == [rows |-> [r \in 1..k.n |-> <<s, r>>], lab |-> k.lab, col |-> k.col, own |-> IF k.how = "packed" THEN 0 ELSE s, dup |-> FALSE, half |-> FALSE]
Begin(kinds) == [s \in 1..Len(kinds) |-> Source(s, kinds[s])]
Op(o, i, j, k, e) == [op |-> o, i |-> i, j |-> j, k |-> k, e |-> e]
MAXROWS == 14
MAKERS == {"slice", "step", "pick", "bool", "one", "clone", "pack", "norm", "denorm", "rgb", "sh", "plyt", "double", "half", "float", "cpu", "add", "plus", "sum", "filter"}
OBSERVERS == {"gsdata", "plydata", "save", "savec", "write", "repr", "todict", "layer"}
\* what rows an index takes
Taken(o, rows) ==
  LET n == Len(rows) IN
  CASE o.op = "slice" -> SubSeq(rows, o.j + 1, IF n < o.k THEN n ELSE o.k)
    [] o.op = "step" -> [r \in 1..((n + 1 - o.j) \div 2) |-> rows[(2 * r) - 1 + o.j]]
    [] o.op = "one" -> <<rows[o.j]>>
    [] o.op = "pick" -> [r \in 1..3 |-> rows[(<<o.j, o.k, o.j>>[r] % n) + 1]]
    [] o.op \in {"bool", "filter"} -> FoldLeft(LAMBDA a, r : IF (r + o.j) % (o.k + 2) = 0 THEN a ELSE Append(a, rows[r]), <<>>, [r \in 1..n |-> r])
Aliases == {"pack", "plyt", "double", "half", "float", "cpu"}
Can(cs, o, kinds) ==
  /\ o.i <= Len(cs)
  /\ LET c == cs[o.i] n == Len(c.rows) IN
     CASE o.op \in {"slice"} -> o.j < o.k
       [] o.op = "step" -> o.j \in {0, 1}
       [] o.op = "one" -> o.j \in 1..n
       [] o.op = "pick" -> n > 0
       [] o.op \in {"bool", "filter"} -> TRUE
       [] o.op \in {"norm"} -> c.lab = "lin" /\ (o.e = "in" => ~c.dup) /\ ~c.half
       [] o.op \in {"denorm"} -> c.lab = "ply" /\ (o.e = "in" => ~c.dup) /\ ~c.half
       [] o.op = "rgb" -> c.col = "sh"
       [] o.op = "sh" -> c.col = "rgb"
       [] o.op = "plyt" -> ~c.half
       [] o.op \in {"add", "plus", "sum"} -> o.j <= Len(cs) /\ cs[o.j].lab = c.lab /\ cs[o.j].col = c.col /\ n + Len(cs[o.j].rows) <= MAXROWS
       [] o.op \in OBSERVERS -> n > 0 /\ ~c.half
       [] OTHER -> TRUE
\* in place: normalize, denormalize, filter with e = "in"
InPlace(o) == o.op \in {"norm", "denorm", "filter"} /\ o.e = "in"
CanIn(cs, o) == InPlace(o) => ~cs[o.i].dup
Result(cs, o) ==
  LET c == cs[o.i] d == [c EXCEPT !.own = 0, !.dup = FALSE] IN
  CASE o.op \in {"slice", "step", "one", "pick", "bool", "filter"} -> [d EXCEPT !.rows = Taken(o, c.rows)]
    [] o.op = "norm" -> [d EXCEPT !.lab = "ply"]
    [] o.op = "plyt" -> [d EXCEPT !.lab = "ply"]
    [] o.op = "denorm" -> [d EXCEPT !.lab = "lin"]
    [] o.op = "rgb" -> [d EXCEPT !.col = "rgb"]
    [] o.op = "sh" -> [d EXCEPT !.col = "sh"]
    [] o.op \in {"add", "plus", "sum"} -> [d EXCEPT !.rows = c.rows \o cs[o.j].rows, !.half = c.half \/ cs[o.j].half]
    [] o.op = "half" -> [d EXCEPT !.half = TRUE]
    [] OTHER -> d
Step(cs, o) ==
  IF o.op \in OBSERVERS THEN cs
  ELSE LET r == Result(cs, o) IN
       IF InPlace(o) THEN [cs EXCEPT ![o.i] = r]
       ELSE IF o.op \in Aliases THEN Append([cs EXCEPT ![o.i].dup = TRUE], [r EXCEPT !.dup = TRUE])
       ELSE Append(cs, r)
\* must the rows of container c track gradients in field f?
Need(c, f, kinds) == \E r \in 1..Len(c.rows) : f \in ToSet(kinds[c.rows[r][1]].track)
(* the loss gives element k of field f of row r weight Weight(r) times k *)
Weight(r) == (3 * r) - 2
Grad(c, s, r, f, kinds) ==
  LET k == kinds[s]
      w == FoldLeft(LAMBDA a, q : IF c.rows[q] = <<s, r>> THEN a + Weight(q) ELSE a, 0, [q \in 1..Len(c.rows) |-> q])
      v == Class(s, r) IN
  w * (CASE f = "scales" -> DS(k.lab, c.lab, v) [] f = "opacities" -> DO(k.lab, c.lab, v) [] OTHER -> UNIT)
Near(x, e) == LET a == IF x < e THEN e - x ELSE x - e IN a <= 1 + (e \div 128)
\* colours are reported in three scalings (1: as they are; 2: divided by, 3: multiplied with C0)
Scaling(c, k) == IF c.col = k.col THEN 1 ELSE IF k.col = "sh" THEN 2 ELSE 3
=============================================================================
