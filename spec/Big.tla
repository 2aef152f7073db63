--------------------------------- MODULE Big ---------------------------------
(* Large scenes.  Every Gaussian carries its own number in every attribute; an object is the sequence of  *)
(* numbers of its rows, whatever operations made it.  The sequences are longer than 16-bit row numbers    *)
(* reach; the semantics is that of the small-scene specification (Container.tla), on whole sequences.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NONE == 999999
Base(b, n) == [r \in 1..n |-> ((b - 1) * 200000) + r - 1]
Op(o, i, a, b, c) == [op |-> o, i |-> i, a |-> a, b |-> b, c |-> c]
Lesser(a, b) == IF a < b THEN a ELSE b
Larger(a, b) == IF a < b THEN b ELSE a
\* Python's slices
Lo(a, n, s) == IF s > 0 THEN (IF a = NONE THEN 0 ELSE IF a < 0 THEN Larger(a + n, 0) ELSE Lesser(a, n))
               ELSE (IF a = NONE THEN n - 1 ELSE IF a < 0 THEN Larger(a + n, -1) ELSE Lesser(a, n - 1))
Hi(b, n, s) == IF s > 0 THEN (IF b = NONE THEN n ELSE IF b < 0 THEN Larger(b + n, 0) ELSE Lesser(b, n))
               ELSE (IF b = NONE THEN -1 ELSE IF b < 0 THEN Larger(b + n, -1) ELSE Lesser(b, n - 1))
Count(lo, hi, s) == IF s > 0 THEN Larger(0, (hi - lo + s - 1) \div s) ELSE Larger(0, (lo - hi + (-s) - 1) \div (-s))
Sliced(x, a, b, s) == LET n == Len(x) lo == Lo(a, n, s) IN [r \in 1..Count(lo, Hi(b, n, s), s) |-> x[lo + ((r - 1) * s) + 1]]
\* every a-th row from b on, or all others
Every(x, a, b) == LET n == Len(x) IN [r \in 1..(IF n > b THEN ((n - b - 1) \div a) + 1 ELSE 0) |-> x[b + ((r - 1) * a) + 1]]
Others(x, a, b) == LET n == Len(x) IN FoldLeft(LAMBDA s, r : IF (r - 1) % a = b THEN s ELSE Append(s, x[r]), <<>>, [r \in 1..n |-> r])
\* c rows: from row a on in steps of b, round and round
Picked(x, a, b, c) == LET n == Len(x) IN IF n = 0 THEN <<>> ELSE [r \in 1..c |-> x[((a + ((r - 1) * b)) % n) + 1]]
\* the layers say of each Gaussian: even; divisible by three; in the upper half of its hundred
In(l, u) == CASE l = "even" -> u % 2 = 0 [] l = "third" -> u % 3 = 0 [] l = "upper" -> (u % 100) >= 50
Filtered(x, l, m, mode) == SelectSeq(x, LAMBDA u : IF mode = 0 THEN In(l, u) /\ In(m, u) ELSE In(l, u) \/ In(m, u))
LAYERS == <<"even", "third", "upper">>
(* objects: rows, kind, layers: "yes" (all three), "no", "mix" (padded) *)
Rows(st, o) ==
  LET x == st[o.i].rows IN
  CASE o.op \in {"slice", "copyslice"} -> Sliced(x, o.a, o.b, o.c)
    [] o.op = "every" -> Every(x, o.a, o.b)
    [] o.op = "pick" -> Picked(x, o.a, o.b, o.c)
    [] o.op = "one" -> IF Len(x) = 0 THEN <<>> ELSE <<x[(o.a % Len(x)) + 1]>>
    [] o.op = "filter" -> Filtered(x, LAYERS[o.a], LAYERS[o.b], o.c)
    [] o.op = "add" -> x \o st[o.a].rows
    [] o.op = "cat" -> (x \o st[o.a].rows) \o x
    [] OTHER -> x
Kind(st, o) == IF o.op = "tensor" THEN "pt" ELSE IF o.op = "arrays" THEN "np" ELSE st[o.i].kind
Layers(st, o) ==
  LET l == st[o.i].lay IN
  CASE o.op = "add" -> IF l = st[o.a].lay THEN l ELSE "mix"
    [] o.op \in {"cat", "file", "unpack"} -> "no"
    [] OTHER -> l
MAKES == {"slice", "copyslice", "every", "pick", "one", "filter", "add", "cat", "copy", "pack", "contig", "tensor", "arrays", "file", "pickle", "unpack"}
Can(st, o) ==
  LET k == st[o.i].kind IN
  CASE o.op = "slice" -> k = "np" \/ o.c > 0
    [] o.op \in {"copyslice", "contig"} -> k = "np"
    [] o.op = "cat" -> k = "np" /\ st[o.a].kind = k
    [] o.op = "add" -> st[o.a].kind = k
    [] o.op = "tensor" -> k = "np"
    [] o.op = "arrays" -> k = "pt"
    [] o.op = "filter" -> st[o.i].lay = "yes"
    [] OTHER -> TRUE
=============================================================================
