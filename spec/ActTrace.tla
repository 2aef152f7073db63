------------------------------ MODULE ActTrace ------------------------------
EXTENDS Act, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}
LimOf(c) == IF c.lim = "sub" THEN Limits.wide ELSE Limits[c.lim]
Act0(c) == IF c.w = "tensor" THEN Limits.none ELSE LimOf(c)
Ppd(c) == 100000
\* how an upper limit looks in single precision
HiTol(c) == IF c.w = "fun" THEN (IF c.dt = "f4" /\ (c.lim = "std" \/ c.lim = "wide") THEN 40000 ELSE 4) ELSE IF c.lim = "std" THEN 400 ELSE 8
Eps(c) == LET l == LimOf(c) IN IF l.eps = 0 THEN LogitMicro ELSE -TwoTab[l.eps]

ObsOk(c, x) ==
  LET in == x.in o == x.out l == LimOf(c) a == Act0(c) IN
  CASE c.w = "tensor" /\ c.dt = "f2" /\ x.f = "sc" ->
         (CASE c.e = "denormalize" -> HalfScaleActOk(in, o) [] c.e = "normalize" -> HalfScaleDeactOk(in, o, l)
            [] c.e = "denorm" -> HalfScaleBackOk(in, o, l) [] OTHER -> HalfScaleForthOk(in, o, a))
    [] c.w = "tensor" /\ c.dt = "f2" /\ x.f = "op" ->
         (CASE c.e = "denormalize" -> HalfOpActOk(in, o) [] c.e = "normalize" -> HalfLogitOk(in, o, LogitLo(l), LogitHi(l))
            [] c.e = "denorm" -> HalfOpBackOk(in, o, LogitLo(l), LogitHi(l)) [] OTHER -> HalfOpForthOk(in, o, l))
    [] x.f = "qu" -> (IF c.e \in {"act", "denormalize", "actdeact", "denorm", "deactact", "normden"} /\ c.w = "data"
                      THEN RotOk(x.q, x.N, x.s, o, l) ELSE \A y \in 1..4 : o[y] = x.raw[y])
    [] x.f = "sc" /\ c.e \in {"act", "denormalize"} -> ScaleActOk(in, o, a, Ppd(c))
    [] x.f = "op" /\ c.e \in {"act", "denormalize", "sigmoid"} -> OpActOk(in, o, Ppd(c))
    [] x.f = "sc" /\ c.e \in {"deact", "normalize"} -> ScaleDeactOk(in, o, l)
    [] x.f = "op" /\ c.e \in {"deact", "normalize"} -> LogitOk(in, o, LogitLo(l), LogitHi(l), HiTol(c))
    [] x.f = "op" /\ c.e = "logit" -> LogitOk(in, o, Eps(c), -Eps(c), HiTol(c))
    [] x.f = "sc" /\ c.e \in {"actdeact", "denorm"} -> ScaleBackOk(in, o, a)
    [] x.f = "op" /\ c.e \in {"actdeact", "denorm"} -> OpBackOk(in, o, l)
    [] x.f = "sc" /\ c.e \in {"deactact", "normden"} -> ScaleForthOk(in, o, a, Ppd(c))
    [] x.f = "op" /\ c.e \in {"deactact", "normden"} -> OpForthOk(in, o, l)
    [] x.f = "op" /\ c.e = "logitsig" -> LET e == Eps(c) w == Max(Min(in[2] * 250000, -e), e) IN
           IsMicro(o, w, (IF c.dt = "f4" THEN Cond(w) ELSE 8) + (IF w = -e THEN HiTol(c) ELSE 0))
    [] x.f = "op" /\ c.e = "siglogit" -> OpForthOk(in, o, [l EXCEPT !.olo = IF l.eps = 0 THEN 20 ELSE l.eps, !.ohi = IF l.eps = 0 THEN 20 ELSE l.eps])
    [] x.f = "s0" /\ c.e \in {"sh2rgb", "to_rgb"} -> ToRgbOk(in, o)
    [] x.f = "s0" /\ c.e \in {"rgb2sh", "to_sh"} -> ToShOk(in, o)
    [] OTHER -> SameOk(in, o, x.x, Ppd(c))

Name(c, x) == x.f \o ":" \o c.e \o ":" \o c.w \o ":" \o (IF x.f = "qu" THEN "rot" ELSE x.in[1])
Finite(o) == o.c \in {"num", "zero"}
Verdict(L) ==
  LET c == L.case IN
  IF c.lim = "sub" THEN   \* limits below single precision: refused, or harmless
      (IF L.err # "" THEN Cl(L.err = "ValueError", "refusal:" \o c.e)
       ELSE UNION {IF L.obs[j].f = "qu" THEN {} ELSE Cl(Finite(L.obs[j].out), "finite:" \o c.e) : j \in 1..Len(L.obs)})
  ELSE IF L.err # "" THEN {"raised:" \o c.e \o ":" \o c.w}
  ELSE UNION {Cl(ObsOk(c, L.obs[j]), Name(c, L.obs[j])) : j \in 1..Len(L.obs)}
       \cup Cl(L.count = L.wanted, "count:" \o c.e) \cup Cl(L.kept, "kept:" \o c.e \o ":" \o c.w) \cup Cl(L.self, "self:" \o c.e \o ":" \o c.w)
       \cup Cl(L.label, "label:" \o c.e \o ":" \o c.w) \cup Cl(L.refused, "refused:" \o c.e)

Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
