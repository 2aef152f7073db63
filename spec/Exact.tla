-------------------------------- MODULE Exact --------------------------------
(* What happens to the stored numbers themselves when data only moves: selecting, copying, packing, transferring, combining and changing precision.
   A number is one of VALS; every number type represents some of them.  A cell is <<value, r>>: the value itself (r = "x") or the value rounded to a
   narrower type it went through.  Moving never changes a cell; only what asks for another type (or packing an array container, which is float32
   by design) rounds, and only to that type. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(* number types; the value of each name is in harness/exact.py *)
FLOATS == {"f2", "f4", "f8"}
VALS == <<"zero", "negzero", "half", "i2049", "i70000", "i16777217", "tenth8", "third4", "huge8", "big4", "tiny8", "sub4", "nan", "inf", "ninf", "one">>
\* values a type holds exactly
Holds(dt) ==
  CASE dt = "f8" -> Range(VALS)
    [] dt = "f4" -> Range(VALS) \ {"i16777217", "tenth8", "huge8", "tiny8"}
    [] dt = "f2" -> {"zero", "negzero", "half", "nan", "inf", "ninf", "one"}
    [] dt = "i4" -> {"zero", "i2049", "i70000", "i16777217", "one"}
    [] OTHER -> {"zero", "one"}                     \* u1
\* a value too large or too small for a type becomes another one
Beyond(v, dt) ==
  CASE dt = "f4" /\ v = "huge8" -> "inf" [] dt = "f4" /\ v = "tiny8" -> "zero"
    [] dt = "f2" /\ v \in {"huge8", "big4", "i70000", "i16777217"} -> "inf" [] dt = "f2" /\ v \in {"tiny8", "sub4"} -> "zero"
    [] OTHER -> v
HOLD == [f8 |-> Holds("f8"), f4 |-> Holds("f4"), f2 |-> Holds("f2")]
WIDTH == [f2 |-> 1, f4 |-> 2, f8 |-> 3]
\* a cell brought to a type
Round(x, dt) ==
  IF dt \notin FLOATS \/ dt = "f8" THEN x
  ELSE LET v == Beyond(x[1], dt) IN
       IF x[2] # "x" /\ WIDTH[x[2]] <= WIDTH[dt] THEN x
       ELSE IF v \in HOLD[dt] THEN <<v, "x">>
       ELSE <<v, dt>>

(* the type wide enough for all of two types: NumPy's rule for arrays *)
Join2(a, b) ==
  IF a = b THEN a
  ELSE IF {a, b} \subseteq FLOATS THEN (IF WIDTH[a] >= WIDTH[b] THEN a ELSE b)
  ELSE IF "i4" \in {a, b} THEN (IF "u1" \in {a, b} THEN "i4" ELSE "f8")
  ELSE IF a = "u1" THEN b ELSE a
JoinSet(S) == FoldLeft(Join2, "u1", SetToSeq(S))

---------------------------------------------------------------------------
(* a container: kind, per field a number type and rows of cells; w = cells per row *)
SIX == <<"means", "scales", "quats", "opacities", "sh0", "shN">>
Wide(f, d) == CASE f = "means" -> 3 [] f = "scales" -> 3 [] f = "quats" -> 4 [] f = "opacities" -> 1 [] f = "sh0" -> 3
                [] OTHER -> <<0, 9, 24, 45>>[d + 1]
FN(f) == CHOOSE x \in 1..6 : SIX[x] = f
FieldsOf(d) == {f \in Range(SIX) : f # "shN" \/ d > 0}
\* the value in a cell of an operand: every type gets values that only it holds
HELD == [f8 |-> VALS,
         f4 |-> SelectSeq(VALS, LAMBDA v : v \in Holds("f4")), f2 |-> SelectSeq(VALS, LAMBDA v : v \in Holds("f2")),
         i4 |-> SelectSeq(VALS, LAMBDA v : v \in Holds("i4")), u1 |-> SelectSeq(VALS, LAMBDA v : v \in Holds("u1"))]
Pick(dt, salt, f, r, c) == HELD[dt][((salt * 7 + FN(f) * 3 + r * 5 + c * 2 + ((r * c) \div 3)) % Len(HELD[dt])) + 1]
\* an operand: [k, n, d, lay, dt, odd = <<field, type>> or <<>>, salt]
DtOf(o, f) == IF o.odd # <<>> /\ o.odd[1] = f THEN o.odd[2] ELSE o.dt
(* TLCEval: TLC evaluates functions lazily; every level is forced so that a long chain of steps stays cheap *)
Made(o) == TLCEval([k |-> o.k, n |-> o.n, d |-> o.d, dts |-> TLCEval([f \in FieldsOf(o.d) |-> DtOf(o, f)]),
            v |-> TLCEval([f \in FieldsOf(o.d) |-> TLCEval([r \in 1..o.n |-> TLCEval([c \in 1..Wide(f, o.d) |-> <<Pick(DtOf(o, f), o.salt, f, r, c), "x">>])])])])
As(s, dts) == IF s.dts = dts THEN s
              ELSE TLCEval([s EXCEPT !.dts = TLCEval(dts),
                                     !.v = TLCEval([f \in DOMAIN s.v |-> TLCEval([r \in 1..Len(s.v[f]) |-> TLCEval([c \in 1..Len(s.v[f][r]) |-> Round(s.v[f][r][c], dts[f])])])])])
AllOf(s, dt) == As(s, TLCEval([f \in DOMAIN s.dts |-> dt]))
Rows(s, ix) == TLCEval([s EXCEPT !.n = Len(ix), !.v = TLCEval([f \in DOMAIN s.v |-> TLCEval([j \in 1..Len(ix) |-> s.v[f][ix[j]]])])])
Common(ss) == [f \in DOMAIN ss[1].dts |-> JoinSet({ss[i].dts[f] : i \in 1..Len(ss)})]
\* packed tensors are of one type; packed arrays are float32 unless they were of one type and packed before
Packs(s, keep) == IF s.k = "np" THEN (IF keep /\ Cardinality(Range(s.dts)) = 1 THEN s ELSE AllOf(s, "f4")) ELSE AllOf(s, JoinSet(Range(s.dts)))
Joined(ss) == LET dts == TLCEval(Common(ss)) qs == TLCEval([i \in 1..Len(ss) |-> As(ss[i], dts)]) IN
  [qs[1] EXCEPT !.n = FoldLeft(LAMBDA a, s : a + s.n, 0, ss),
                         !.v = TLCEval([f \in DOMAIN dts |-> TLCEval(FoldLeft(LAMBDA a, s : a \o s.v[f], <<>>, qs))])]

(* one step: op = [op, ...]; st = the operands as they are (the first is the current container) *)
Seq1(n) == [j \in 1..n |-> j]
Evens(n) == SelectSeq(Seq1(n), LAMBDA j : j % 2 = 1)
Rev(n) == [j \in 1..n |-> n + 1 - j]
Apply(op, st, keep) ==
  LET s == st[1] n == st[1].n IN
  CASE op \in {"copy", "deepcopy", "pickle", "slice", "cslice", "contig", "contig_in", "unpack", "cpu", "plytensor"} -> s
    \* a tensor container made of tensors takes the type of the first
    [] op \in {"dict", "from_arrays"} -> IF s.k = "np" THEN s ELSE AllOf(s, s.dts["means"])
    [] op \in {"step", "mask", "cmask", "cstep", "layers", "layers_in"} -> Rows(s, Evens(n))
    [] op = "rows" -> Rows(s, Rev(n))
    [] op = "crows" -> Rows(s, Rev(n))
    [] op \in {"get", "cget"} -> Rows(s, <<n>>)
    [] op = "tuple" -> Rows(s, <<n>>)
    [] op = "cons" -> Packs(s, keep)
    [] op = "to_f2" -> AllOf(s, "f2") [] op = "to_f4" -> AllOf(s, "f4") [] op = "to_f8" -> AllOf(s, "f8")
    [] op = "half" -> AllOf(s, "f2") [] op = "float" -> AllOf(s, "f4") [] op = "double" -> AllOf(s, "f8")
    [] op = "tensor" -> [AllOf(s, "f4") EXCEPT !.k = "pt"]
    [] op = "tensor_f8" -> [AllOf(s, "f8") EXCEPT !.k = "pt"]
    [] op = "tensor_f2" -> [AllOf(s, "f2") EXCEPT !.k = "pt"]
    [] op = "tensor_mask" -> [AllOf(Rows(s, Evens(n)), "f4") EXCEPT !.k = "pt"]
    [] op = "array" -> [s EXCEPT !.k = "np"]
    [] op = "file" -> AllOf(s, "f4")                \* files hold float32
    [] op = "plydata" -> [s EXCEPT !.k = "np"]
    [] op \in {"add", "plus"} -> Joined(<<st[1], st[2]>>)
    [] op = "radd" -> Joined(<<st[2], st[1]>>)
    [] op = "self" -> Joined(<<st[1], st[1]>>)
    [] OTHER -> Joined(st)                          \* "concat", "sum": all operands
NPOPS == {"copy", "deepcopy", "pickle", "slice", "cslice", "contig", "contig_in", "dict", "unpack", "step", "mask", "cmask", "cstep", "cget", "layers", "layers_in", "rows", "crows", "get",
          "tuple", "cons", "tensor", "tensor_f8", "tensor_f2", "tensor_mask", "from_arrays", "file", "add", "plus", "radd", "self", "concat", "sum"}
PTOPS == {"copy", "slice", "dict", "unpack", "step", "mask", "layers", "layers_in", "rows", "get", "tuple", "cons", "half", "float", "double", "plytensor", "to_f2", "to_f4", "to_f8", "cpu",
          "array", "plydata", "from_arrays", "file", "add", "plus", "radd", "self"}
\* a packed container holds one type already
StartOf(o) == Made(o)
RECURSIVE RunOps(_, _, _)
RunOps(ops, st, keep) == IF ops = <<>> THEN st[1] ELSE RunOps(Tail(ops), [st EXCEPT ![1] = TLCEval(Apply(Head(ops), st, keep))], keep)
(* operations that need at least one row, or operands of the same kind *)
Able(op, st) == /\ op \in (IF st[1].k = "np" THEN NPOPS ELSE PTOPS)
                /\ (op \in {"get", "tuple", "cget"} => st[1].n > 0)
                /\ (op \in {"add", "plus", "radd", "concat", "sum"} => Len(st) > 1 /\ \A i \in 1..Len(st) : st[i].k = st[1].k)
=============================================================================
