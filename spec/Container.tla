----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* Abstract semantics of gsply's containers GSData ("np") and GSTensor      *)
(* ("pt").  A state is a sequence of live containers; every public          *)
(* operation is a function Expected(op, st) giving what the operation may   *)
(* do: refuse, return a new container (values, labels, layers, sharing),    *)
(* change its target, return values.                                        *)
(*                                                                          *)
(* One attribute value of one Gaussian is a TOKEN                           *)
(*     bits * 512 + uid * 8 + form                                          *)
(* uid  names the value (0..62, 63 = not a value this history ever made),   *)
(* form says how it is represented:                                         *)
(*   0 native (log-scale, logit, SH; exact)   1 converted (linear, RGB,     *)
(*   unit rotation)  2 native, recomputed     3 native, quantised           *)
(*   4 converted from quantised               5 (quats) native or unit      *)
(* bits names the exact stored bit pattern; 0 = not constrained.            *)
(* A container is a record                                                  *)
(*  k   "np"/"pt"      n  number of rows     dt "f4"/"f8"/"f2"/"mix"        *)
(*  d   SH degree      dl degree label       lab <<scales,opac,color>> 0/1  *)
(*  L   -1 no masks, else number of layers   hn has names, nm names         *)
(*  v   [me,sc,qu,op,s0,sn : Seq(token), mk : Seq(bit set of the row)]      *)
(*  a   addresses of the rows of each of these                              *)
(* sn is <<>> iff d = 0, mk is <<>> iff L = -1.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE  == -99          \* absent slice bound
WILD  == -1           \* any token
VF    == {"me","sc","qu","op","s0","sn"}
AF    == VF \cup {"mk"}

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SeqMap(s, F(_)) == [j \in 1..Len(s) |-> F(s[j])]
Pow2(l) == 2^l
BitOf(x, l) == (x \div Pow2(l)) % 2

Low(t)  == t % 512
Uid(t)  == Low(t) \div 8
Form(t) == t % 8
Tok(u, fm) == u * 8 + fm
Bad(t)  == t = WILD \/ Uid(t) = 63

(* forms an observation may show where the specification says fm *)
Allowed(f, fm) ==
  IF f = "qu" /\ fm = 3 THEN {0, 1, 2, 3}
  ELSE CASE fm = 0 -> {0} [] fm = 1 -> {1} [] fm = 2 -> {0, 2}
         [] fm = 3 -> {0, 2, 3} [] fm = 4 -> {1, 4} [] fm = 5 -> {0, 1, 2} [] OTHER -> {}

Match(f, e, o) ==
  \/ e = WILD
  \/ e >= 512 /\ e = o
  \/ e >= 0 /\ e < 512 /\ Uid(e) = Uid(o) /\ Form(o) \in Allowed(f, Form(e))

---------------------------------------------------------------------------
(* conversions of one token *)
ToLin(t) == IF Bad(t) THEN WILD
            ELSE CASE Form(t) = 0 -> Tok(Uid(t), 1) [] Form(t) \in {2, 3} -> Tok(Uid(t), 4)
                   [] OTHER -> WILD
ToNat(t) == IF Bad(t) THEN WILD
            ELSE CASE Form(t) = 1 -> Tok(Uid(t), 2) [] Form(t) = 4 -> Tok(Uid(t), 3)
                   [] OTHER -> WILD
ToUnit(t) == IF Bad(t) THEN WILD
             ELSE CASE Form(t) \in {2, 3} -> Tok(Uid(t), 3) [] OTHER -> Tok(Uid(t), 1)
Quant(t) == IF Bad(t) THEN WILD ELSE Tok(Uid(t), IF Form(t) \in {1, 4} THEN 4 ELSE 3)
QuantQ(t) == IF Bad(t) THEN WILD ELSE Tok(Uid(t), 3)
Loose(t) == IF Bad(t) THEN WILD ELSE Low(t)      \* same value, other bits allowed

IsLin(t) == Form(t) \in {1, 4}
(* does the label describe the values? *)
Honest(o) ==
  /\ \A j \in 1..Len(o.v.sc) : ~Bad(o.v.sc[j]) => (IsLin(o.v.sc[j]) <=> o.lab[1] = 1)
  /\ \A j \in 1..Len(o.v.op) : ~Bad(o.v.op[j]) => (IsLin(o.v.op[j]) <=> o.lab[2] = 1)
  /\ \A j \in 1..Len(o.v.s0) : ~Bad(o.v.s0[j]) => (IsLin(o.v.s0[j]) <=> o.lab[3] = 1)

SetV(o, f, s) == [o EXCEPT !.v = [@ EXCEPT ![f] = s]]
(* half precision rounds every converted value *)
Rough(t) == IF t = WILD THEN t ELSE Tok(Uid(t), IF IsLin(t) THEN 4 ELSE 3)
Conv(o, f, F(_)) ==
  SetV(o, f, IF o.dt = "f2" THEN SeqMap(SeqMap(o.v[f], F), Rough) ELSE SeqMap(o.v[f], F))

---------------------------------------------------------------------------
(* selection *)
Sel1(s, ix) == IF s = <<>> THEN <<>> ELSE [j \in 1..Len(ix) |-> s[ix[j]]]
Sel(o, ix) == [o EXCEPT !.n = Len(ix), !.v = [f \in AF |-> Sel1(o.v[f], ix)],
                        !.a = [f \in AF |-> Sel1(o.a[f], ix)]]

(* Python's slice.indices: s = <<start, stop, step>>; 1-based row numbers *)
PySlice(n, s) ==
  LET step == IF s[3] = NONE THEN 1 ELSE s[3]
      lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      clip(v) == IF v < 0 THEN Max2(v + n, lo) ELSE Min2(v, hi)
      start == IF s[1] = NONE THEN (IF step > 0 THEN 0 ELSE n - 1) ELSE clip(s[1])
      stop  == IF s[2] = NONE THEN (IF step > 0 THEN n ELSE -1) ELSE clip(s[2])
      cnt == IF step > 0 THEN (IF start < stop THEN (stop - start - 1) \div step + 1 ELSE 0)
             ELSE (IF stop < start THEN (start - stop - 1) \div (-step) + 1 ELSE 0)
  IN [j \in 1..cnt |-> start + (j - 1) * step + 1]

InRange(n, i) == i >= -n /\ i < n
Norm(n, i) == IF i < 0 THEN i + n + 1 ELSE i + 1
RECURSIVE Trues(_, _)
Trues(m, j) == IF j > Len(m) THEN <<>>
               ELSE (IF m[j] = 1 THEN <<j>> ELSE <<>>) \o Trues(m, j + 1)
Rows(n) == [j \in 1..n |-> j]

---------------------------------------------------------------------------
(* mask layers *)
Index(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
InSeq(s, x) == \E j \in 1..Len(s) : s[j] = x
AutoName(l) == "layer_" \o ToString(l)
Names(o) == IF o.L < 1 THEN <<>>
            ELSE IF o.hn THEN o.nm ELSE [l \in 1..o.L |-> AutoName(l - 1)]
LayerBits(o, l) == [j \in 1..o.n |-> BitOf(o.v.mk[j], l - 1)]
AddLayer(o, name, m) ==
  IF o.L = -1
  THEN SetV([o EXCEPT !.L = 1, !.hn = TRUE, !.nm = <<name>>], "mk", [j \in 1..o.n |-> m[j]])
  ELSE SetV([o EXCEPT !.L = o.L + 1, !.hn = TRUE, !.nm = Append(Names(o), name)], "mk",
            [j \in 1..o.n |-> o.v.mk[j] + m[j] * Pow2(o.L)])
Drop1(s, l) == [j \in 1..(Len(s) - 1) |-> IF j < l THEN s[j] ELSE s[j + 1]]
DropBit(x, l) == (x % Pow2(l)) + (x \div Pow2(l + 1)) * Pow2(l)
DelLayer(o, l) ==
  IF o.L = 1 THEN SetV([o EXCEPT !.L = -1, !.hn = FALSE, !.nm = <<>>], "mk", <<>>)
  ELSE SetV([o EXCEPT !.L = o.L - 1, !.nm = Drop1(o.nm, l)], "mk",
            [j \in 1..o.n |-> DropBit(o.v.mk[j], l - 1)])
(* layers = <<>> stands for all layers *)
Chosen(o, layers) == IF layers = <<>> THEN 1..o.L
                     ELSE {Index(o.nm, layers[i]) : i \in 1..Len(layers)}
Combine(o, mode, layers) ==
  LET ls == Chosen(o, layers)
  IN [j \in 1..o.n |-> IF mode = "and"
        THEN (IF \A l \in ls : BitOf(o.v.mk[j], l - 1) = 1 THEN 1 ELSE 0)
        ELSE (IF \E l \in ls : BitOf(o.v.mk[j], l - 1) = 1 THEN 1 ELSE 0)]
CombineRefused(o, mode, layers) ==
  \/ o.L = -1 \/ mode \notin {"and", "or"}
  \/ layers # <<>> /\ (~o.hn \/ \E i \in 1..Len(layers) : ~InSeq(o.nm, layers[i]))

---------------------------------------------------------------------------
(* combination *)
SameKindOfScene(a, b) == a.d = b.d /\ a.dl = b.dl /\ a.lab = b.lab
CatF(a, b, f) == a.v[f] \o b.v[f]
Zeros(n) == [j \in 1..n |-> 0]
MixDt(a, b) == IF a = b THEN a ELSE IF {a, b} \subseteq {"f2", "f4", "f8"} THEN (IF "f8" \in {a, b} THEN "f8" ELSE "f4") ELSE "any"
Cat(a, b) ==
  LET base == [a EXCEPT !.n = a.n + b.n, !.dt = MixDt(a.dt, b.dt),
                        !.v = [f \in AF |-> IF f = "mk" THEN <<>> ELSE CatF(a, b, f)]]
      none == SetV([base EXCEPT !.L = -1, !.hn = FALSE, !.nm = <<>>], "mk", <<>>)
  IN IF a.L = -1 /\ b.L = -1 THEN none
     ELSE IF a.L # -1 /\ b.L # -1 THEN
       IF a.L # b.L THEN none
       ELSE SetV([base EXCEPT !.hn = a.hn \/ b.hn,
                              !.nm = IF a.hn THEN a.nm ELSE IF b.hn THEN b.nm ELSE <<>>],
                 "mk", a.v.mk \o b.v.mk)
     ELSE IF a.L # -1 THEN SetV(base, "mk", a.v.mk \o Zeros(b.n))
     ELSE SetV([base EXCEPT !.L = b.L, !.hn = b.hn, !.nm = b.nm], "mk", Zeros(a.n) \o b.v.mk)
RECURSIVE BulkCat(_, _)
NoMasks(o) == SetV([o EXCEPT !.L = -1, !.hn = FALSE, !.nm = <<>>], "mk", <<>>)
BulkCat(st, ids) == IF Len(ids) = 1 THEN NoMasks(st[ids[1]])
                    ELSE NoMasks(Cat(BulkCat(st, SubSeq(ids, 1, Len(ids) - 1)), st[ids[Len(ids)]]))
RECURSIVE FoldCat(_, _)
FoldCat(st, ids) == IF Len(ids) = 1 THEN st[ids[1]]
                    ELSE Cat(FoldCat(st, SubSeq(ids, 1, Len(ids) - 1)), st[ids[Len(ids)]])
CanCat(st, ids) == \A i \in 1..Len(ids) : SameKindOfScene(st[ids[1]], st[ids[i]])
                                          /\ st[ids[1]].k = st[ids[i]].k

---------------------------------------------------------------------------
(* format conversions of a container *)
Linear(o) ==    \* denormalize
  LET a == Conv(Conv(o, "sc", ToLin), "op", ToLin)
      b == [a EXCEPT !.lab = <<1, 1, o.lab[3]>>]
  IN IF o.k = "np" THEN Conv(b, "qu", ToUnit) ELSE b
Native(o) == [Conv(Conv(o, "sc", ToNat), "op", ToNat) EXCEPT !.lab = <<0, 0, o.lab[3]>>]
Rgb(o) == [Conv(o, "s0", ToLin) EXCEPT !.lab = <<o.lab[1], o.lab[2], 1>>]
Sh(o) == [Conv(o, "s0", ToNat) EXCEPT !.lab = <<o.lab[1], o.lab[2], 0>>]
(* what a writer must put into the file: exactly the attributes that need it converted *)
PlyForm(o, color) ==
  LET a == IF o.lab[1] = 1 THEN Conv(o, "sc", ToNat) ELSE o
      b == IF o.lab[2] = 1 THEN Conv(a, "op", ToNat) ELSE a
      c == IF color /\ o.lab[3] = 1 THEN Conv(b, "s0", ToNat) ELSE b
  IN [c EXCEPT !.lab = <<0, 0, IF color THEN 0 ELSE o.lab[3]>>]
Identity(t) == t
AllTok(o, F(_)) == [o EXCEPT !.v = [f \in AF |-> IF f = "mk" THEN o.v[f] ELSE SeqMap(o.v[f], F)]]
F32(o) == IF o.dt = "f4" THEN o ELSE AllTok(o, Loose)
Compressed(o) ==
  [o EXCEPT !.v = [f \in AF |-> IF f = "mk" THEN o.v[f]
                                 ELSE IF f = "qu" THEN SeqMap(o.v[f], QuantQ)
                                 ELSE SeqMap(o.v[f], Quant)]]
(* L = -2: whatever default layer a reader attaches: none, or one unnamed all-true layer *)
Loaded(o, how, k) ==
  LET p == F32(PlyForm(o, TRUE))
      q == IF how = "c" THEN Compressed(p) ELSE p
  IN SetV([q EXCEPT !.k = k, !.dt = "f4", !.L = -2, !.hn = FALSE, !.nm = <<>>], "mk", <<>>)

---------------------------------------------------------------------------
R0 == [err |-> "no", errs |-> {}, new |-> <<>>, sh |-> "may", ix |-> <<>>, self |-> FALSE,
       upd |-> <<>>, out |-> <<>>]
Fresh(o)      == [R0 EXCEPT !.new = <<o>>, !.sh = "no"]
View(o, ix)   == [R0 EXCEPT !.new = <<Sel(o, ix)>>, !.sh = "must", !.ix = ix]
MayShare(o)   == [R0 EXCEPT !.new = <<o>>, !.sh = "may"]
OrSelf(o)     == [R0 EXCEPT !.new = <<o>>, !.sh = "may", !.self = TRUE]
Update(o)     == [R0 EXCEPT !.upd = <<o>>]
Returns(s)    == [R0 EXCEPT !.out = <<s>>]
Refuse(cls)   == [R0 EXCEPT !.err = "must", !.errs = cls]
MayRefuse(r, cls) == [r EXCEPT !.err = "may", !.errs = cls]

IDX == {"IndexError"}
VAL == {"ValueError"}

RowOut(o, j) == [f \in AF |-> IF o.v[f] = <<>> THEN <<>> ELSE <<o.v[f][j]>>]
(* mask layers a scenario starts with: none, one unnamed, one named, two named, two unnamed *)
MvL(mv) == CASE mv = "-" -> -1 [] mv \in {"u1", "n1"} -> 1 [] OTHER -> 2
MvN(mv) == CASE mv = "n1" -> <<"s1">> [] mv = "n2" -> <<"s1", "s2">> [] OTHER -> <<>>
MvBits(mv, n) == CASE mv = "-" -> <<>>
                   [] mv \in {"u1", "n1"} -> [j \in 1..n |-> j % 2]
                   [] OTHER -> [j \in 1..n |-> (j + 1) % 4]
MkNew(op) ==
  LET ids == op.us
      n == Len(ids)
  IN [k |-> op.k, n |-> n, dt |-> op.dt, d |-> op.d, dl |-> op.d, lab |-> op.lab,
      L |-> IF op.mv = "-" /\ op.how = "file" THEN -2 ELSE MvL(op.mv),
      hn |-> MvN(op.mv) # <<>>, nm |-> MvN(op.mv),
      v |-> [me |-> [j \in 1..n |-> Tok(ids[j], 0)],
             sc |-> [j \in 1..n |-> Tok(ids[j], op.lab[1])],
             qu |-> [j \in 1..n |-> Tok(ids[j], 0)],
             op |-> [j \in 1..n |-> Tok(ids[j], op.lab[2])],
             s0 |-> [j \in 1..n |-> Tok(ids[j], op.lab[3])],
             sn |-> IF op.d = 0 THEN <<>> ELSE [j \in 1..n |-> Tok(ids[j], 0)],
             mk |-> MvBits(op.mv, n)],
      a |-> [f \in AF |-> <<>>]]

FormFor(o, f) == CASE f = "sc" -> o.lab[1] [] f = "op" -> o.lab[2] [] f = "s0" -> o.lab[3]
                   [] OTHER -> 0

Expected(op, st) ==
  LET o == st[op.o] IN
  CASE op.op = "new" -> [R0 EXCEPT !.new = <<MkNew(op)>>]
  (* ---- selection ---- *)
  [] op.op = "slice" ->
       IF op.sl[3] = 0 THEN Refuse(VAL)
       ELSE LET r == View(o, PySlice(o.n, op.sl))
            IN IF o.k = "pt" /\ op.sl[3] # NONE /\ op.sl[3] < 0 THEN MayRefuse(r, VAL) ELSE r
  [] op.op = "take" ->
       IF \E i \in 1..Len(op.y) : ~InRange(o.n, op.y[i]) THEN Refuse(IDX)
       ELSE Fresh(Sel(o, [i \in 1..Len(op.y) |-> Norm(o.n, op.y[i])]))
  [] op.op = "takebad" -> Refuse(IDX \cup VAL \cup {"TypeError"})  \* no list of row numbers: fractions, nested, too large
  [] op.op = "bmask" ->
       IF Len(op.m) # o.n THEN Refuse(VAL \cup IDX) ELSE Fresh(Sel(o, Trues(op.m, 1)))
  [] op.op = "int" ->
       IF ~InRange(o.n, op.x) THEN Refuse(IDX) ELSE Returns(<<RowOut(o, Norm(o.n, op.x))>>)
  [] op.op = "iter" -> Returns([j \in 1..o.n |-> RowOut(o, j)])
  [] op.op = "getg" ->
       IF ~InRange(o.n, op.x) THEN Refuse(IDX) ELSE View(o, <<Norm(o.n, op.x)>>)
  [] op.op = "cslice" -> Fresh(Sel(o, PySlice(o.n, op.sl)))
  [] op.op = "cslicei" ->
       IF ~InRange(o.n, op.x) THEN Refuse(IDX) ELSE Fresh(Sel(o, <<Norm(o.n, op.x)>>))
  [] op.op = "cslicet" ->
       IF \E i \in 1..Len(op.y) : ~InRange(o.n, op.y[i]) THEN Refuse(IDX)
       ELSE Fresh(Sel(o, [i \in 1..Len(op.y) |-> Norm(o.n, op.y[i])]))
  [] op.op = "cslicem" ->
       IF Len(op.m) # o.n THEN Refuse(VAL \cup IDX) ELSE Fresh(Sel(o, Trues(op.m, 1)))
  (* ---- copies and storage ---- *)
  [] op.op \in {"copy", "deepcopy", "pickle"} -> Fresh(o)
  [] op.op = "cons" -> OrSelf(F32(o))
  [] op.op = "contig" -> IF op.ip = 1 THEN Update(o) ELSE OrSelf(o)
  [] op.op = "wfmt" -> MayShare([o EXCEPT !.lab = op.lab])
  [] op.op = "wfmtbad" -> Refuse(VAL)
  [] op.op = "cpfmt" -> Update([o EXCEPT !.lab = st[op.x].lab, !.dl = st[op.x].dl])
  [] op.op \in {"fsmut", "query", "nop"} -> R0
  (* ---- combination ---- *)
  [] op.op = "add" ->
       LET x == st[op.x] IN
       IF o.k # x.k THEN MayRefuse(R0, {"*"})
       ELSE IF ~SameKindOfScene(o, x) THEN Refuse(VAL)
       ELSE Fresh(Cat(o, x))
  [] op.op = "sum" ->
       IF ~CanCat(st, op.y) THEN Refuse(VAL)
       ELSE IF Len(op.y) = 1 THEN [OrSelf(st[op.y[1]]) EXCEPT !.self = TRUE]
       ELSE Fresh(FoldCat(st, op.y))
  [] op.op = "concat" ->
       IF op.y = <<>> THEN Refuse(VAL)
       ELSE IF ~CanCat(st, op.y) THEN Refuse(VAL)
       ELSE IF Len(op.y) = 1 THEN OrSelf(st[op.y[1]])
       ELSE Fresh(BulkCat(st, op.y))
  (* ---- conversions ---- *)
  [] op.op \in {"denorm", "preact"} -> IF op.ip = 1 THEN Update(Linear(o)) ELSE MayShare(Linear(o))
  [] op.op \in {"norm", "predeact"} -> IF op.ip = 1 THEN Update(Native(o)) ELSE MayShare(Native(o))
  [] op.op = "rgb" -> IF op.ip = 1 THEN Update(Rgb(o)) ELSE MayShare(Rgb(o))
  [] op.op = "sh" -> IF op.ip = 1 THEN Update(Sh(o)) ELSE MayShare(Sh(o))
  (* ---- masks ---- *)
  [] op.op = "addm" ->
       IF Len(op.m) # o.n \/ InSeq(Names(o), op.nm) THEN Refuse(VAL)
       ELSE Update(AddLayer(o, op.nm, op.m))
  [] op.op = "getm" ->
       IF ~o.hn \/ ~InSeq(o.nm, op.nm) THEN Refuse(VAL)
       ELSE Returns(LayerBits(o, Index(o.nm, op.nm)))
  [] op.op = "rmm" ->
       IF ~o.hn \/ ~InSeq(o.nm, op.nm) THEN Refuse(VAL)
       ELSE Update(DelLayer(o, Index(o.nm, op.nm)))
  [] op.op = "comb" ->
       IF CombineRefused(o, op.md, op.nms) THEN Refuse(VAL)
       ELSE Returns(Combine(o, op.md, op.nms))
  [] op.op = "appm" ->
       IF CombineRefused(o, op.md, op.nms) THEN Refuse(VAL)
       ELSE LET r == Sel(o, Trues(Combine(o, op.md, op.nms), 1))
            IN IF op.ip = 1 THEN Update(r) ELSE Fresh(r)
  (* ---- direct edits by the user (performed by the driver, not by gsply) ---- *)
  [] op.op = "edrow" ->
       Update(SetV(o, op.f, [o.v[op.f] EXCEPT ![op.r] = Tok(op.u, FormFor(o, op.f))]))
  [] op.op = "edmask" ->
       Update(SetV(o, "mk", [o.v.mk EXCEPT ![op.r] =
              @ + (op.b - BitOf(@, op.l)) * Pow2(op.l)]))
  [] op.op = "aug" ->
       Update(SetV(o, "me", [j \in 1..o.n |-> IF Bad(o.v.me[j]) THEN WILD
                                              ELSE Tok(Uid(o.v.me[j]) + op.x, Form(o.v.me[j]))]))
  [] op.op = "rebind" ->
       Update(SetV(o, op.f, [j \in 1..o.n |-> Tok(op.us[j], FormFor(o, op.f))]))
  [] op.op = "setmasks" ->
       Update(SetV([o EXCEPT !.L = op.L, !.hn = op.nms # <<>>, !.nm = op.nms], "mk", op.m))
  (* ---- files and transfers ---- *)
  [] op.op = "save" -> R0
  [] op.op = "saveload" -> Fresh(Loaded(o, op.how, op.k))
  [] op.op = "tot" -> MayShare([F32(o) EXCEPT !.k = "pt", !.dt = "f4"])
  [] op.op = "tot8" -> MayShare([(IF o.dt = "f4" THEN o ELSE AllTok(o, Loose)) EXCEPT !.k = "pt", !.dt = "f8"])
  [] op.op = "totm" ->
       IF Len(op.m) # o.n THEN Refuse(VAL \cup IDX)
       ELSE MayShare([Sel(F32(o), Trues(op.m, 1)) EXCEPT !.k = "pt", !.dt = "f4"])
  [] op.op = "tog" -> MayShare([o EXCEPT !.k = "np"])
  [] op.op = "toply" -> MayShare(PlyForm(o, FALSE))
  [] op.op = "toplyd" -> MayShare([PlyForm(o, FALSE) EXCEPT !.k = "np"])
  [] op.op = "todt" ->
       LET r == IF op.dt = o.dt THEN o
                ELSE IF op.dt = "f8" THEN o
                ELSE IF op.dt = "f2" THEN Compressed(o)
                ELSE AllTok(o, Loose)
       IN OrSelf([r EXCEPT !.dt = op.dt])
  [] op.op = "tocpu" -> OrSelf(o)
  [] op.op = "rtdict" ->     \* from_dict(to_dict()) under the preset naming the present format
       MayShare([NoMasks(o) EXCEPT !.dl = o.d])
  [] op.op = "todict" -> Returns([f \in VF |-> o.v[f]])
  [] op.op = "unpack" -> Returns([f \in VF |-> IF f = "sn" /\ op.ip = 0 THEN <<>> ELSE o.v[f]])
=============================================================================
