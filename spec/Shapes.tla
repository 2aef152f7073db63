------------------------------- MODULE Shapes -------------------------------
(* What shapes of arrays make a scene, and what an entry point that stores, packs or transfers a scene may do with arrays of any shape:
   store exactly the scene they are, or refuse and touch nothing.  Reading past the end of a short array, repeating the only row of another one,
   or leaving rows out is never an answer. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

FIELDS == <<"means", "scales", "quats", "opacities", "sh0", "shN">>
COLS == [means |-> 3, scales |-> 3, quats |-> 4, opacities |-> 0, sh0 |-> 3, shN |-> 3]
\* the shape of a field of a scene of n gaussians with k bands (k = -1: no SH array)
Natural(f, n, k) == IF f = "opacities" THEN <<n>> ELSE IF f = "shN" THEN <<n, k, 3>> ELSE <<n, COLS[f]>>

(* ways in which an array can be of another shape *)
MUTS == {"short", "long", "one", "empty", "nocol", "morecol", "lead", "trail", "flat", "swap"}
Mutate(s, m) ==
  LET q == Len(s) IN
  CASE m = "short" -> [s EXCEPT ![1] = IF @ > 0 THEN @ - 1 ELSE 0]
    [] m = "long" -> [s EXCEPT ![1] = @ + 1]
    [] m = "one" -> [s EXCEPT ![1] = 1]
    [] m = "empty" -> [s EXCEPT ![1] = 0]
    [] m = "nocol" -> IF q = 1 THEN s ELSE [s EXCEPT ![q] = @ - 1]
    [] m = "morecol" -> IF q = 1 THEN s ELSE [s EXCEPT ![q] = @ + 1]
    [] m = "lead" -> <<1>> \o s
    [] m = "trail" -> Append(s, 1)
    [] m = "flat" -> IF q = 1 THEN s ELSE IF q = 2 THEN <<s[1] * s[2]>> ELSE <<s[1], s[2] * s[3]>>
    [] OTHER -> IF q = 1 THEN s ELSE IF q = 2 THEN <<s[2], s[1]>> ELSE <<s[1], s[3], s[2]>>

(* a case: n, k, muts = sequence of <<field, mutation>>; its shapes *)
Shape(c, f) == FoldLeft(LAMBDA s, m : IF m[1] = f THEN Mutate(s, m[2]) ELSE s, Natural(f, c.n, c.k), c.muts)
Has(c, f) == f # "shN" \/ c.k >= 0
Rows(c) == Shape(c, "means")[1]
Complete(k) == k \in {-1, 0, 3, 8, 15}

(* the arrays are a scene *)
Scene(c) == LET n == Rows(c) IN
  /\ \A f \in {"means", "scales", "quats", "opacities", "sh0"} : Shape(c, f) = Natural(f, n, c.k)
  /\ Has(c, "shN") => /\ Len(Shape(c, "shN")) = 3 /\ Shape(c, "shN")[1] = n /\ Shape(c, "shN")[3] = 3
Bands(c) == IF Has(c, "shN") THEN Shape(c, "shN")[2] ELSE 0

(* other notations of the same arrays, which an entry point may know or refuse: opacities as a column, SH coefficients as one row each *)
Plain(s) == IF Len(s) = 2 /\ s[2] = 1 THEN <<s[1]>> ELSE s
Loose(c) == LET n == Rows(c) IN
  /\ \A f \in {"means", "scales", "quats", "sh0"} : Shape(c, f) = Natural(f, n, c.k)
  /\ Plain(Shape(c, "opacities")) = <<n>>
  /\ Has(c, "shN") => \/ Len(Shape(c, "shN")) = 3 /\ Shape(c, "shN")[1] = n /\ Shape(c, "shN")[3] = 3
                      \/ Len(Shape(c, "shN")) = 2 /\ Shape(c, "shN")[1] = n /\ Shape(c, "shN")[2] % 3 = 0
LooseBands(c) == IF ~Has(c, "shN") THEN 0 ELSE IF Len(Shape(c, "shN")) = 3 THEN Shape(c, "shN")[2] ELSE Shape(c, "shN")[2] \div 3

(* entry points: what they use of a scene, and whether they need a complete SH degree *)
UNC == {"plywrite_u", "save_u", "gt_save_u", "plywrite_gt", "write_u"}
COMP == {"plywrite_c", "save_c", "write_c", "bytes", "bytes_loose", "arrays", "gt_save_c", "plywrite_gpu"}
PACK == {"consolidate", "from_gsdata", "gt_consolidate"}
ACT == {"activate", "deactivate", "normalize", "denormalize"}
\* combined with scenes of PARTNER gaussians and as many bands: before one, after one, between two
JOIN == {"add_l", "add_r", "cat_m", "gadd_l", "gadd_r"}
PARTNER == 2
PARTNERVALUE == 77
ENTRIES == UNC \cup COMP \cup PACK \cup ACT \cup JOIN
\* activations work on scales, opacities and (activating) rotations, in any of the notations
ActOk(c, e) == LET s == Shape(c, "scales") o == Shape(c, "opacities") q == Shape(c, "quats") IN
  /\ Len(s) = 2 /\ s[2] = 3 /\ Plain(o) = <<s[1]>>
  /\ (e \in {"activate", "denormalize"} => q = <<s[1], 4>>)

\* arrays of no gaussians at all, whatever else their shapes say
NoRows(c) == \A f \in Range(FIELDS) : Has(c, f) => Shape(c, f)[1] = 0

Must(c, e) == IF e \in ACT THEN Scene(c) ELSE IF e \in JOIN THEN Scene(c) /\ Complete(c.k) /\ (Has(c, "shN") => Bands(c) = c.k) ELSE Scene(c) /\ Complete(IF Has(c, "shN") THEN Bands(c) ELSE -1)
May(c, e) == IF e \in ACT THEN ActOk(c, e) ELSE IF e \in JOIN THEN Loose(c) \/ NoRows(c) ELSE Loose(c)

(* the values: cell i (0-based, in the order of the array's memory) of field number x *)
Cell(x, i) == x * 2000 + i
FIX(f) == CHOOSE x \in 1..6 : FIELDS[x] = f
\* row r (0-based) of a field of w values per row
RowOf(f, r, w) == [q \in 1..w |-> Cell(FIX(f), r * w + q - 1)]
=============================================================================
