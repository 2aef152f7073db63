-------------------------------- MODULE Masks --------------------------------
(* Mask layers in numbers: what combining and applying any choice of any number of layers selects.
   Layers are numbered in the order they were added; a row pattern is the set of layers that select rows of that pattern.
   Rows follow patterns; the answer for a row depends on its pattern alone. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Ids(L) == [j \in 1..L |-> j]
\* patterns 1: every layer, 2: no layer, then all but J[k], then only J[k]
NPat(c) == 2 + 2 * Len(c.J)
Selects(c, p, l) ==
  IF p = 1 THEN TRUE ELSE IF p = 2 THEN FALSE
  ELSE IF p <= 2 + Len(c.J) THEN l # c.J[p - 2] ELSE l = c.J[p - 2 - Len(c.J)]
\* which layers are there, in order, after the history of the case
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Layers(c) ==
  LET a == Ids(c.L) IN
  CASE c.hist = "dropfirst" -> Tail(a)
    [] c.hist = "dropmid" -> Without(a, c.L \div 2 + 1)
    [] c.hist = "droplast" -> SubSeq(a, 1, c.L - 1)
    [] c.hist = "dropto1" -> <<c.L>>
    [] c.hist = "readd" -> Append(Tail(a), 1)
    [] OTHER -> a                                      \* copies, slices, moves and combinations keep them all
Name(l) == "m" \o ToString(l)
Known(c) == c.all \/ \A k \in 1..Len(c.sel) : c.sel[k] \in Range(Layers(c))
Chosen(c) == IF c.all THEN Range(Layers(c)) ELSE Range(c.sel)
Answer(c, p) == IF c.mode = "and" THEN \A l \in Chosen(c) : Selects(c, p, l) ELSE \E l \in Chosen(c) : Selects(c, p, l)
\* choosing nothing, or one layer twice, may be refused instead of answered
Plain(c) == c.all \/ (c.sel # <<>> /\ IsInjective(c.sel))
=============================================================================
