--------------------------- MODULE ContainerGen ----------------------------
(***************************************************************************)
(* State machine over Container: explores histories of public operations,   *)
(* checks the design properties on every reachable state, and prints every  *)
(* history of length Depth as a JSON program for the conformance driver.    *)
(* PROFILE selects which operation families are enabled at which step.      *)
(***************************************************************************)
EXTENDS Container, Json, IOUtils

VARIABLES st,    \* live containers
          prog,  \* operations so far (with the id of the container they created)
          lies   \* containers whose labels may not describe their values (user relabelled them,
                 \* or converted memory they are a view of)
vars == <<st, prog, lies>>

PROFILE == IOEnv.PROFILE
EMIT == IOEnv.EMIT = "1"
---------------------------------------------------------------------------
(* applying an operation to the model *)
FI(f) == CASE f = "me" -> 1 [] f = "sc" -> 2 [] f = "qu" -> 3 [] f = "op" -> 4 [] f = "s0" -> 5
           [] f = "sn" -> 6 [] OTHER -> 7
FreshA(o, step) == [f \in AF |-> [j \in 1..Len(o.v[f]) |-> step * 1000 + FI(f) * 100 + j]]
Settle(o) == \* resolve what the specification leaves open
  LET p == IF o.dt = "any" THEN [o EXCEPT !.dt = "f4"] ELSE o
  IN IF p.L = -2 THEN SetV([p EXCEPT !.L = 1], "mk", [j \in 1..p.n |-> 1]) ELSE p
InPlace == {"edrow","edmask","aug","denorm","norm","rgb","sh","preact","predeact"}
Reflect(q, t) ==  \* q after the cells of t were written
  [q EXCEPT !.v = [f \in AF |-> [j \in 1..Len(q.v[f]) |->
     IF \E l \in 1..Len(t.a[f]) : t.a[f][l] = q.a[f][j]
     THEN t.v[f][CHOOSE l \in 1..Len(t.a[f]) : t.a[f][l] = q.a[f][j]] ELSE q.v[f][j]]]]

ApplyOp(op, s, step) ==
  LET E == Expected(op, s) IN
  IF E.err # "no" THEN s
  ELSE IF E.new # <<>>
  THEN LET r == Settle(E.new[1])
       IN Append(s, IF E.sh = "must" THEN r ELSE [r EXCEPT !.a = FreshA(r, step)])
  ELSE IF E.upd # <<>>
  THEN LET r == E.upd[1]
       IN IF op.op \in InPlace
          THEN [q \in 1..Len(s) |-> IF q = op.o THEN r ELSE Reflect(s[q], r)]
          ELSE [s EXCEPT ![op.o] =
                 [r EXCEPT !.a = [f \in AF |-> IF r.v[f] = s[op.o].v[f] /\ r.n = s[op.o].n /\ (f # "mk" \/ r.L = s[op.o].L)
                                               THEN s[op.o].a[f] ELSE FreshA(r, step)[f]]]]
  ELSE s
Res(op, s) == LET E == Expected(op, s) IN IF E.err = "no" /\ E.new # <<>> THEN Len(s) + 1 ELSE 0
---------------------------------------------------------------------------
(* operation instances *)
B(n) == [name |-> n]
Pats(n) == {[j \in 1..n |-> 1], [j \in 1..n |-> 0], [j \in 1..n |-> j % 2],
            [j \in 1..n |-> IF j = 1 THEN 1 ELSE 0]}
Pat1(n) == {[j \in 1..n |-> j % 2]}
Step == Len(prog) + 1
T == 1..Len(st)
Last2 == {t \in T : t >= Len(st) - 1}
Kind(t, k) == st[t].k = k
Ok(t) == Honest(st[t])
NN(t) == st[t].n > 0

SliceArgs(full, n) ==
  IF full THEN {<<a, b, c>> : a \in {NONE} \cup (-(n+1))..(n+1), b \in {NONE} \cup (-(n+1))..(n+1),
                              c \in {NONE, -3, -2, -1, 0, 1, 2, 3}}
  ELSE {<<NONE, NONE, NONE>>, <<1, NONE, NONE>>, <<NONE, NONE, 2>>, <<NONE, -1, NONE>>,
        <<NONE, NONE, -1>>, <<0, 0, NONE>>, <<1, 2, NONE>>}
Hows(t) == IF Kind(t, "np") THEN {"list", "arr", "arr32"} ELSE {"list", "arr", "tensor"}
MHows(t) == IF Kind(t, "np") THEN {"list", "arr"} ELSE {"list", "arr", "tensor"}
TakeArgs(n) == {<<>>, <<0>>, <<-1, 0, 0>>, <<n>>, <<-(n+1)>>, [j \in 1..n |-> n - j],
                [j \in 1..(n + 2) |-> (j * 2) % (IF n = 0 THEN 1 ELSE n)]}
Names3 == {"a", "b", "layer_0"}
Layers(o) == {<<>>} \cup {<<o.nm[j]>> : j \in 1..Len(o.nm)}
             \cup (IF Len(o.nm) > 1 THEN {<<o.nm[Len(o.nm)], o.nm[1]>>} ELSE {})
CopyOp == {"copy", "deepcopy", "pickle"}
HasSn(t) == st[t].v.sn # <<>>
Shows(t) == {f \in VF : f # "sn" \/ HasSn(t)}

SaveVia(t) == IF Kind(t, "np")
  THEN {<<"u", "plywrite">>, <<"u", "save">>, <<"c", "plywritec">>, <<"c", "bytes">>,
        <<"u", "arrays">>, <<"c", "arraysc">>}
  ELSE {<<"u", "save">>, <<"c", "save">>, <<"c", "savec">>, <<"u", "plywrite">>,
        <<"c", "plywrite_gpu">>, <<"c", "plywritec">>}
Reader(how) == IF how = "c" THEN {"np", "pt", "np2", "pt2"} ELSE {"np", "pt"}
KofR(r) == IF r \in {"np", "np2"} THEN "np" ELSE "pt"

CvOps(t) == (IF st[t].lab[1] = 0 /\ st[t].lab[2] = 0
             THEN {"denorm"} \cup (IF Kind(t, "np") THEN {"preact"} ELSE {}) ELSE {})
            \cup (IF st[t].lab[1] = 1 /\ st[t].lab[2] = 1
                  THEN {"norm"} \cup (IF Kind(t, "np") THEN {"predeact"} ELSE {}) ELSE {})
            \cup (IF st[t].lab[3] = 0 THEN {"rgb"} ELSE {"sh"})
Fam(f) ==
  CASE f = "slF" -> {[op |-> "slice", o |-> t, sl |-> s] : t \in Last2, s \in SliceArgs(TRUE, 3)}
    [] f = "csF" -> {[op |-> "cslice", o |-> t, sl |-> s] :
                       t \in {t \in T : Kind(t, "np")}, s \in {x \in SliceArgs(TRUE, 3) : x[3] # 0}}
    [] f = "sl" -> {[op |-> "slice", o |-> t, sl |-> s] : t \in T, s \in SliceArgs(FALSE, 3)}
    [] f = "sl2" -> {[op |-> "slice", o |-> t, sl |-> s] : t \in T,
                     s \in {<<1, NONE, NONE>>, <<NONE, NONE, 2>>, <<NONE, NONE, -1>>}}
    [] f = "tk" -> UNION {{[op |-> "take", o |-> t, y |-> y, how |-> h] :
                     y \in TakeArgs(st[t].n), h \in Hows(t)} : t \in T}
                   \cup UNION {{[op |-> "take", o |-> t, y |-> y, how |-> h] :
                     y \in {y \in TakeArgs(st[t].n) : \A j \in 1..Len(y) : y[j] >= 0}, h \in {"arru", "arr8"}} : t \in T}
                   \cup {[op |-> "takebad", o |-> t, how |-> h] : t \in T, h \in {"frac", "farr", "nested", "two", "zerod", "huge"}}
                   \cup {[op |-> "takebad", o |-> t, how |-> h] : t \in {t \in T : Kind(t, "pt")}, h \in {"ttwo", "tzerod", "tfrac"}}
    [] f = "tk1" -> {[op |-> "take", o |-> t, y |-> <<-1, 0>>, how |-> "arr"] : t \in {t \in T : NN(t)}}
    [] f = "bm" -> UNION {{[op |-> "bmask", o |-> t, m |-> m, how |-> h] :
                     m \in Pats(st[t].n) \cup {[j \in 1..(st[t].n + 1) |-> 1]}
                           \cup (IF st[t].n > 1 THEN {[j \in 1..(st[t].n - 1) |-> 1]} ELSE {}),
                     h \in MHows(t)} : t \in T}
    [] f = "bm1" -> {[op |-> "bmask", o |-> t, m |-> [j \in 1..st[t].n |-> IF j = 1 THEN 0 ELSE 1],
                      how |-> "arr"] : t \in T}
    [] f = "ig" -> UNION {{[op |-> q, o |-> t, how |-> h, x |-> x] : q \in {"int", "getg"}, h \in {"py", "np"},
                     x \in (-(st[t].n + 1))..st[t].n} : t \in T}
    [] f = "it" -> {[op |-> "iter", o |-> t] : t \in T}
    [] f = "cs" -> {[op |-> "cslice", o |-> t, sl |-> s] : t \in {t \in T : Kind(t, "np")},
                     s \in SliceArgs(FALSE, 3)}
    [] f = "csi" -> UNION {{[op |-> "cslicei", o |-> t, how |-> h, x |-> x] : h \in {"py", "np"}, x \in (-(st[t].n + 1))..st[t].n} :
                     t \in {t \in T : Kind(t, "np")}}
    [] f = "cst" -> UNION {{[op |-> "cslicet", o |-> t, y |-> y, how |-> h] :
                     y \in TakeArgs(st[t].n), h \in {"list", "arr"}} : t \in {t \in T : Kind(t, "np")}}
    [] f = "csm" -> UNION {{[op |-> "cslicem", o |-> t, m |-> m, how |-> h] :
                     m \in Pats(st[t].n), h \in {"list", "arr"}} : t \in {t \in T : Kind(t, "np")}}
    [] f = "csx" -> UNION {{[op |-> "cslicei", o |-> t, how |-> "py", x |-> 0],
                            [op |-> "cslicet", o |-> t, y |-> <<-1, 0>>, how |-> "arr"],
                            [op |-> "cslicem", o |-> t, m |-> [j \in 1..st[t].n |-> IF j = 1 THEN 0 ELSE 1],
                             how |-> "arr"]} : t \in {t \in T : Kind(t, "np") /\ NN(t)}}
    [] f = "cp" -> {[op |-> q, o |-> t] : q \in CopyOp, t \in T}
    [] f = "cp1" -> {[op |-> "copy", o |-> t] : t \in T}
    [] f = "st" -> {[op |-> "cons", o |-> t] : t \in T}
                   \cup {[op |-> "contig", o |-> t, ip |-> b] : t \in {t \in T : Kind(t, "np")}, b \in {0, 1}}
    [] f = "wf" -> {[op |-> "wfmt", o |-> t, lab |-> l] : t \in T,
                     l \in {st[1].lab, <<1 - st[1].lab[1], st[1].lab[2], st[1].lab[3]>>}}
    [] f = "wf0" -> {[op |-> "wfmt", o |-> t, lab |-> st[t].lab] : t \in T}
    [] f = "wfx" -> {[op |-> "wfmtbad", o |-> t] : t \in T}
    [] f = "cf" -> {[op |-> "cpfmt", o |-> t, x |-> x] : t \in T,
                     x \in {x \in T : \E t \in T : st[x].lab = st[t].lab /\ st[x].d = st[t].d}}
    [] f = "fs" -> {[op |-> q, o |-> t] : q \in {"fsmut", "query"}, t \in T}
    [] f = "ad" -> {[op |-> "add", o |-> t, x |-> x, how |-> h] : t \in T, x \in T, h \in {"add", "plus"}}
    [] f = "ad1" -> {[op |-> "add", o |-> t, x |-> x, how |-> "plus"] : t \in T, x \in T}
    [] f = "cc" -> {[op |-> "concat", o |-> 0, y |-> <<>>]}
                   \cup {[op |-> "concat", o |-> 0, y |-> <<t>>] : t \in {t \in T : Kind(t, "np")}}
                   \cup {[op |-> "concat", o |-> 0, y |-> <<t, x>>] : t \in {t \in T : Kind(t, "np")},
                           x \in {t \in T : Kind(t, "np")}}
                   \cup {[op |-> "concat", o |-> 0, y |-> <<t, x, t>>] : t \in {t \in T : Kind(t, "np")},
                           x \in {t \in T : Kind(t, "np")}}
    [] f = "su" -> {[op |-> "sum", o |-> 0, y |-> <<t, x, z>>] : t \in T, x \in T, z \in T}
                   \cup {[op |-> "sum", o |-> 0, y |-> <<t>>] : t \in T}
    [] f = "cvI" -> UNION {{[op |-> q, o |-> t, ip |-> 1] : q \in CvOps(t)} : t \in {t \in T : Ok(t)}}
    [] f = "cvO" -> UNION {{[op |-> q, o |-> t, ip |-> 0] : q \in CvOps(t)} : t \in {t \in T : Ok(t)}}
    [] f = "mkA" -> UNION {{[op |-> "addm", o |-> t, nm |-> n, m |-> m, how |-> h] : n \in Names3,
                     m \in Pat1(st[t].n), h \in {"arr"}} : t \in T}
    [] f = "mkA3" -> UNION {{[op |-> "addm", o |-> t, nm |-> n, m |-> m, how |-> h] : n \in Names3,
                     m \in Pats(st[t].n) \cup {[j \in 1..(st[t].n + 1) |-> 1]},
                     h \in MHows(t) \cup {"argmut"}} : t \in T}
    [] f = "mkB" -> {[op |-> "addm", o |-> t, nm |-> "c", how |-> "argmut",
                      m |-> [j \in 1..st[t].n |-> IF j > 1 THEN 1 ELSE 0]] : t \in T}
    [] f = "mkR" -> UNION {{[op |-> "rmm", o |-> t, nm |-> n] :
                     n \in {"zz"} \cup {st[t].nm[j] : j \in 1..Len(st[t].nm)}} : t \in T}
    [] f = "mkQ" -> UNION {{[op |-> "getm", o |-> t, nm |-> n] :
                     n \in {"zz"} \cup {st[t].nm[j] : j \in 1..Len(st[t].nm)}} : t \in T}
    [] f = "mkC" -> UNION {{[op |-> "comb", o |-> t, md |-> m, nms |-> l] :
                     m \in {"and", "or", "xor"}, l \in Layers(st[t]) \cup {<<"zz">>}} : t \in T}
    [] f = "mkP" -> UNION {{[op |-> "appm", o |-> t, md |-> m, nms |-> l, ip |-> b] :
                     m \in {"and", "or"}, l \in Layers(st[t]) \cup {<<"zz">>}, b \in {0, 1}} : t \in T}
    [] f = "mkP1" -> {[op |-> "appm", o |-> t, md |-> "or", nms |-> <<>>, ip |-> b] : t \in T, b \in {0, 1}}
    [] f = "ed" -> UNION {{[op |-> "edrow", o |-> t, f |-> g, r |-> r, u |-> 20 + (Len(prog) % 8)] :
                     g \in Shows(t), r \in {1, st[t].n}} : t \in {t \in T : NN(t) /\ st[t].dt # "f2"}}
    [] f = "ed1" -> UNION {{[op |-> "edrow", o |-> t, f |-> g, r |-> 1, u |-> 20 + (Len(prog) % 8)] :
                     g \in Shows(t)} : t \in {t \in T : NN(t) /\ st[t].dt # "f2"}}
    [] f = "sm1" -> UNION {{[op |-> "setmasks", o |-> t, L |-> 1, nms |-> <<>>, m |-> m, how |-> "1d"] :
                      m \in Pat1(st[t].n)} : t \in T}
    [] f = "ioc" -> UNION {{[op |-> "saveload", o |-> t, how |-> v[1], via |-> v[2], rd |-> r, k |-> KofR(r)] :
                     r \in {"pt"}, v \in SaveVia(t)} : t \in {t \in T : Ok(t)}}
    [] f = "em" -> UNION {{[op |-> "edmask", o |-> t, r |-> st[t].n, l |-> st[t].L - 1,
                      b |-> 1 - BitOf(st[t].v.mk[st[t].n], st[t].L - 1)]} : t \in {t \in T : NN(t) /\ st[t].L > 0}}
    [] f = "au" -> {[op |-> "aug", o |-> t, x |-> 1] : t \in T}
    [] f = "rb" -> UNION {{[op |-> "rebind", o |-> t, f |-> g, us |-> [j \in 1..st[t].n |-> 28 + ((Len(prog) * 3 + j) % 11)]] :
                     g \in Shows(t)} : t \in {t \in T : NN(t) /\ st[t].dt # "f2"}}
    [] f = "sm" -> UNION {{[op |-> "setmasks", o |-> t, L |-> 1, nms |-> n, m |-> m, how |-> h] :
                      n \in {<<>>, <<"s1">>}, m \in Pat1(st[t].n), h \in {"1d", "2d"}}
                     \cup {[op |-> "setmasks", o |-> t, L |-> 2, nms |-> n, how |-> h,
                            m |-> [j \in 1..st[t].n |-> j % 4]] : n \in {<<>>, <<"s1", "s2">>},
                            h \in {"2d", "2dF"}} : t \in T}
    [] f = "sv" -> UNION {{[op |-> "save", o |-> t, how |-> v[1], via |-> v[2]] : v \in SaveVia(t)} :
                     t \in {t \in T : Ok(t)}}
    [] f = "io" -> UNION {UNION {{[op |-> "saveload", o |-> t, how |-> v[1], via |-> v[2], rd |-> r, k |-> KofR(r)] :
                     r \in Reader(v[1])} : v \in SaveVia(t)} : t \in {t \in T : Ok(t)}}
    [] f = "io1" -> {[op |-> "saveload", o |-> t, how |-> "u", via |-> "save", rd |-> "np", k |-> "np"] :
                     t \in {t \in T : Ok(t)}}
    [] f = "io2" -> {[op |-> "saveload", o |-> t, how |-> "c", via |-> IF Kind(t, "np") THEN "bytes" ELSE "savec",
                       rd |-> "np2", k |-> "np"] : t \in {t \in T : Ok(t)}}
    [] f = "xf" -> {[op |-> q, o |-> t] : q \in {"tot", "tot8"}, t \in {t \in T : Kind(t, "np")}}
                   \cup UNION {{[op |-> "totm", o |-> t, m |-> m] : m \in Pat1(st[t].n) \cup
                           {[j \in 1..(st[t].n + 1) |-> 1]}} : t \in {t \in T : Kind(t, "np")}}
                   \cup {[op |-> q, o |-> t] : q \in {"tog", "tocpu"}, t \in {t \in T : Kind(t, "pt")}}
                   \cup {[op |-> q, o |-> t] : q \in {"toply", "toplyd"},
                           t \in {t \in T : Kind(t, "pt") /\ Ok(t)}}
    [] f = "xf1" -> {[op |-> q, o |-> t] : q \in {"tot"}, t \in {t \in T : Kind(t, "np")}}
                   \cup {[op |-> q, o |-> t] : q \in {"tog"}, t \in {t \in T : Kind(t, "pt")}}
    [] f = "dt" -> {[op |-> "todt", o |-> t, dt |-> d, how |-> h] : t \in {t \in T : Kind(t, "pt") /\ Ok(t)},
                     d \in {"f4", "f8", "f2"}, h \in {"to", "named"}}
    [] f = "rd" -> {[op |-> "rtdict", o |-> t] : t \in {t \in T : Ok(t) /\ st[t].lab[1] = st[t].lab[2]}}
    [] f = "od" -> {[op |-> "todict", o |-> t] : t \in T}
                   \cup {[op |-> "unpack", o |-> t, ip |-> b] : t \in T, b \in {0, 1}}
---------------------------------------------------------------------------
(* profiles: scenarios and families per step *)
New(k, us, d, lab, how, mv) ==
  [op |-> "new", o |-> 0, k |-> k, us |-> us, d |-> d, lab |-> lab, how |-> how, mv |-> mv,
   dt |-> IF how = "f64" THEN "f8" ELSE "f4"]
N0 == <<0, 0, 0>>
U3 == <<1, 2, 3>>
U2 == <<11, 12>>
KS == {"np", "pt"}
Lay(k) == IF k = "np" THEN {"sep", "strided", "cons", "file", "pickled", "f64"}
          ELSE {"sep", "base", "file", "f64", "grad", "gradbase"}
\* layouts of profiles that edit in place, which tensors under training refuse
LayE(k) == Lay(k) \ {"grad", "gradbase"}
Core(k) == IF k = "np" THEN {"sep", "cons", "file"} ELSE {"sep", "base"}
One(k, d, lab, lay, mvs) == {<<New(k, U3, d, lab, l, m)>> : l \in lay, m \in mvs}
Two(k, d, lab, lay, mvs) == {<<New(k, U3, d, lab, l, m), New(k, U2, d, lab, l2, m2)>> :
                              l \in lay, m \in mvs, l2 \in lay, m2 \in mvs}
Hist == {"cvI", "ed", "rb", "mkP1", "sm1", "st", "sl2", "em", "wf0"}

Scen ==
  CASE PROFILE = "hist" ->      \* storage independence: change twice, then observe
         UNION {One(k, d, lab, Core(k), {"n2"}) : k \in KS, d \in {0, 1}, lab \in {N0, <<1, 1, 0>>}}
    [] PROFILE = "sel" ->
         UNION {One(k, d, N0, Lay(k), {"n2"}) : k \in KS, d \in {0, 2}}
         \cup {<<New(k, us, 1, N0, l, "u1")>> : k \in KS, us \in {<<>>, <<5>>}, l \in {"sep", "file"}}
    [] PROFILE = "sel2" -> UNION {One(k, 1, N0, Core(k), {"u2"}) : k \in KS}
    [] PROFILE = "mask" -> UNION {One(k, 0, N0, {"sep", "file"}, {"-", "u1", "n1", "n2", "u2"}) : k \in KS}
    [] PROFILE = "comb" ->
         UNION {Two(k, d, N0, Core(k), {"-", "u1", "n1", "n2", "u2"}) : k \in KS, d \in {0, 1}}
         \cup UNION {Two(k, 2, <<1, 1, 1>>, Lay(k), {"-"}) : k \in KS}
         \cup {<<New(k, U3, 1, N0, l, "-"), New(k, U2, d, lab, m, "n1")>> : k \in KS, d \in {0, 1, 2},
                 lab \in {N0, <<1, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>}, l \in {"sep", "file"}, m \in {"sep", "file"}}
         \cup {<<New(k, U3, 1, N0, l, "n1"), New(k, <<>>, 1, N0, m, mv)>> : k \in KS,
                 l \in {"sep", "file"}, m \in {"sep", "file"}, mv \in {"-", "n2", "u1"}}
         \cup {<<New("np", U3, 1, N0, "sep", "-"), New("pt", U2, 1, N0, "sep", "-")>>}
    [] PROFILE = "conv" ->
         UNION {One(k, d, lab, Core(k), {"n1"}) : k \in KS, d \in {0, 1},
                lab \in {N0, <<1, 1, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>}}
    [] PROFILE = "pure" ->
         {<<New(k, U3, 1, lab, l, m), New(k, U2, 1, lab, "sep", m)>> : k \in KS, m \in {"n2", "u1"},
             l \in Core("np"), lab \in {N0, <<1, 1, 1>>, <<0, 1, 0>>}} 
    [] PROFILE = "xfer" ->
         UNION {One(k, d, lab, LayE(k), {"-", "n2"}) : k \in KS, d \in 0..3, lab \in {N0, <<1, 1, 1>>}}
         \cup {<<New(k, <<>>, d, N0, l, "n1")>> : k \in KS, d \in 0..3, l \in {"sep", "file"}}
    [] PROFILE = "share" -> UNION {One(k, 2, N0, LayE(k), {"n2"}) : k \in KS}
    [] PROFILE = "grad" ->      \* (gradients themselves: Grads.tla)
         {<<New("pt", U3, 2, N0, "gradbase", "n2"), New("pt", U2, 2, N0, "gradbase", "n2")>>,
          <<New("pt", U3, 2, <<1, 1, 1>>, "grad", "n2"), New("pt", U2, 2, <<1, 1, 1>>, "gradbase", "n2")>>}
    [] PROFILE = "deg" ->
         {<<New(k, us, d, lab, l, "n1")>> : us \in {<<>>, U3}, l \in {"sep", "file"}, k \in KS, d \in 0..3,
             lab \in {N0, <<1, 1, 0>>}}
    [] PROFILE = "walk" ->
         UNION {Two(k, d, lab, Core(k), {"-", "n2"}) : k \in KS, d \in {0, 1, 2, 3},
                lab \in {N0, <<1, 1, 0>>, <<1, 1, 1>>, <<0, 1, 0>>}}
ScenOK == {sc \in Scen : \A j \in 1..Len(sc) : sc[j].how \in Lay(sc[j].k)}

All == {"sl", "tk1", "bm1", "ig", "cs", "csx", "cp", "st", "wf0", "ad1", "cc", "cvI", "cvO", "mkA", "mkB", "mkR",
        "mkP1", "mkC", "ed", "em", "au", "rb", "sm", "io1", "io2", "xf", "sv", "rd", "od"}
Plan ==
  CASE PROFILE = "hist" -> <<Hist, Hist>>
    [] PROFILE = "sel" -> <<{"slF", "csF", "tk", "bm", "ig", "it", "csi", "cst", "csm"}>>
    [] PROFILE = "sel2" -> <<{"sl", "tk1", "bm1", "mkA", "sm1", "cvI", "ed"}, {"sl", "tk", "bm", "ig", "cs", "it"}>>
    [] PROFILE = "mask" -> <<{"mkA3", "mkB", "mkR", "sl2", "bm1", "tk1", "xf1", "cp1", "mkP1", "sm", "fs"},
                             {"mkA", "mkR", "mkQ", "mkC", "mkP", "ad1", "cs", "st", "cvO"}>>
    [] PROFILE = "comb" -> <<{"ad", "cc", "su"}>>
    [] PROFILE = "conv" -> <<{"cvI", "cvO", "sl2", "st", "wf", "cf"}, {"cvI", "cvO", "io", "rd", "ad1", "xf"}>>
    [] PROFILE = "pure" -> <<{"sl", "tk1", "bm1", "ig", "cs", "csx", "cp", "st", "wf", "fs", "ad1", "cc", "cvO", "mkQ", "mkC",
           "mkP", "sv", "io", "xf", "dt", "rd", "od", "it"}, {"mkB", "em", "wf0", "mkR"}>>
    [] PROFILE = "xfer" -> <<{"sl2", "ed1", "cvI", "fs", "xf", "dt"}, {"xf", "dt", "tk1"}>>
    [] PROFILE = "share" -> <<{"st", "fs", "cvI", "sl2"},
          {"sl2", "ig", "cs", "csx", "cp", "tk1", "bm1", "ad1", "mkP1", "cvO", "xf1", "wf0", "io1", "st"}, {"ed1", "em"}>>
    [] PROFILE = "grad" -> <<{"sl2", "tk1", "bm1", "ig", "cp1", "st", "ad1", "cvO", "mkA", "mkP1", "sv", "io", "xf", "dt", "rd", "od", "rb"},
          {"sl2", "tk1", "cp1", "st", "ad1", "cvO", "sv", "io", "xf1", "dt", "rd"}>>
    [] PROFILE = "deg" -> <<All, {"cp1", "sl2", "io1", "io2", "ioc", "xf1", "st", "ad1", "rd", "mkP1"}>>
    [] PROFILE = "walk" -> [s \in 1..9 |-> All]
Depth == Len(Plan)
---------------------------------------------------------------------------
RECURSIVE RunAll(_, _, _)
RunAll(ops, s, step) == IF ops = <<>> THEN s
                        ELSE RunAll(Tail(ops), ApplyOp(Head(ops), s, step), step + 1)
MaxUid(s) == \A q \in 1..Len(s) : \A j \in 1..s[q].n : Uid(s[q].v.me[j]) < 39

Init == \E sc \in ScenOK :
  /\ st = RunAll(sc, <<>>, 1)
  /\ prog = [j \in 1..Len(sc) |-> [op |-> sc[j], res |-> j]]
  /\ lies = {}
Scenario == Len(SelectSeq(prog, LAMBDA p : p.op.op = "new"))
At == Len(prog) - Scenario + 1

Relabels == {"wfmt", "cpfmt"}
Sources(op) == IF op.op \in {"sum", "concat"} THEN {op.y[j] : j \in 1..Len(op.y)}
               ELSE {op.o} \cup (IF op.op \in {"add", "cpfmt"} THEN {op.x} ELSE {})
Do(op) ==
  LET s2 == ApplyOp(op, st, Step)
      r == Res(op, st)
      dirty == Sources(op) \cap lies # {} \/ op.op \in Relabels
  IN /\ MaxUid(s2)
     /\ Len(s2) <= 7
     /\ \A q \in 1..Len(s2) : s2[q].n <= 12
     /\ st' = s2
     /\ prog' = Append(prog, [op |-> op, res |-> r])
     /\ lies' = lies \cup {q \in 1..Len(st) : q # op.o /\ s2[q] # st[q]}
                 \cup (IF dirty THEN {q \in 1..Len(s2) : q > Len(st) \/ q = op.o} ELSE {})
Next == At <= Depth /\ \E f \in Plan[At] : \E op \in Fam(f) : Do(op)
Spec == Init /\ [][Next]_vars

(* random walks: one random family, one random instance per step *)
NoOp == [op |-> "nop", o |-> 1]
Walk == /\ At <= Depth
        /\ \E f \in {RandomElement(Plan[At])} :
             LET fam == Fam(f) IN \E op \in {IF fam = {} THEN NoOp ELSE RandomElement(fam)} : Do(op)
WalkInit == \E sc \in ScenOK :
  /\ st = RunAll(sc, <<>>, 1)
  /\ prog = [j \in 1..Len(sc) |-> [op |-> sc[j], res |-> j]]
  /\ lies = {}
WalkSpec == WalkInit /\ [][Walk]_vars

Emit == (EMIT /\ At > Depth) => PrintT("PROG " \o ToJson(prog))
---------------------------------------------------------------------------
(* design properties, checked on every reachable state of the model *)
TypeOK == \A q \in 1..Len(st) : LET o == st[q] IN
  /\ o.k \in {"np", "pt"} /\ o.d \in 0..3
  /\ \A f \in VF \ {"sn"} : Len(o.v[f]) = o.n
  /\ Len(o.v.sn) = (IF o.d = 0 THEN 0 ELSE o.n)
  /\ \A f \in AF : Len(o.a[f]) = Len(o.v[f])
  /\ \A f \in VF : \A j \in 1..Len(o.v[f]) : o.v[f][j] # WILD
(* C18 *)
DegreeOK == \A q \in 1..Len(st) : st[q].dl = st[q].d
(* C07: labels describe the values unless the user relabelled the container, converted memory it is
   a view of, or it comes from such a container *)
LabelsOK == \A q \in 1..Len(st) : Honest(st[q]) \/ q \in lies
(* C09 *)
MasksOK == \A q \in 1..Len(st) : LET o == st[q] IN
  /\ o.hn => Len(o.nm) = o.L
  /\ (o.L = -1) <=> ~(o.L >= 1)
  /\ o.L >= 1 => Len(o.v.mk) = o.n /\ \A j \in 1..o.n : o.v.mk[j] < Pow2(o.L)
  /\ \A x, y \in 1..Len(o.nm) : o.nm[x] = o.nm[y] => x = y
(* C10: without edits every row holds the attributes of one Gaussian *)
NoEdit == \A p \in 1..Len(prog) : prog[p].op.op \notin {"edrow", "aug", "rebind"}
RowsOK == NoEdit => \A q \in 1..Len(st) : \A j \in 1..st[q].n : \A f \in VF :
            st[q].v[f] # <<>> => Uid(st[q].v[f][j]) = Uid(st[q].v.me[j])
(* C16: memory is coherent, and views share every attribute at once *)
CoherentOK == \A q, r \in 1..Len(st) : \A f \in AF :
  \A j \in 1..Len(st[q].a[f]), l \in 1..Len(st[r].a[f]) :
    st[q].a[f][j] = st[r].a[f][l] => st[q].v[f][j] = st[r].v[f][l]
NoRebind == \A p \in 1..Len(prog) : prog[p].op.op \notin {"rebind", "setmasks", "appm", "addm", "rmm", "contig"}
ShareOK == NoRebind => \A q, r \in 1..Len(st) :
  (\E j \in 1..st[q].n, l \in 1..st[r].n : st[q].a.me[j] = st[r].a.me[l]) =>
     \A f \in VF : st[q].v[f] = <<>> \/ \E j \in 1..st[q].n, l \in 1..st[r].n : st[q].a[f][j] = st[r].a[f][l]
Design == TypeOK /\ DegreeOK /\ LabelsOK /\ MasksOK /\ RowsOK /\ CoherentOK /\ ShareOK
=============================================================================
