-------------------------------- MODULE Act --------------------------------
(* What activation and deactivation do to one element, on inputs the curves are tabulated for.
   An input is <<kind, a, b>>:
     "k" a      a / 4                       "hi" "lo"   far beyond every limit, positive and negative
     "j" a      a / 64                      "p2" a b    2^a * 3^b
     "q2" a     1 - 2^-a                    "zero"      0 or -0
   An output is [c, s, m, e, u]: class "num" "zero" "inf" "nan", sign, nine digits and exponent (Curves), and the value in
   micro when it is below 2000 in magnitude (99999999 otherwise). *)
EXTENDS Curves, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
ME(o) == <<o.m, o.e>>
LeqME(x, y) == x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])
\* |x - y| <= x / ppd
Close(x, y, ppd) ==
  IF x[2] = y[2] THEN Abs(x[1] - y[1]) <= x[1] \div ppd + 1
  ELSE IF x[2] = y[2] + 1 THEN Abs(x[1] - y[1] \div 10) <= x[1] \div ppd + 1
  ELSE IF y[2] = x[2] + 1 THEN Abs(y[1] - x[1] \div 10) <= y[1] \div ppd + 1
  ELSE FALSE
IsME(o, want, ppd) == o.c = "num" /\ o.s = 1 /\ Close(want, ME(o), ppd)
Nothing(o) == o.c = "zero" \/ (o.c = "num" /\ o.s = 1 /\ o.e <= -30)
IsMicro(o, want, tol) == o.c \in {"num", "zero"} /\ o.u # 99999999 /\ Abs(o.u - want) <= tol
Round(x) == 4 + Abs(x) \div 2000000          \* single precision logarithms

\* limits: scales <<min, max>> of activation as numbers and logarithms, norm 2^qmin, scale 2^dmin, opacity 2^-olo .. 1 - 2^-ohi, 2^-eps
Limits == [
  std |-> [smin |-> <<100000000, -4>>, lmin |-> -9210340, smax |-> <<100000000, 2>>, lmax |-> 4605170, qmin |-> 0, dmin |-> 0, olo |-> 0, ohi |-> 0, eps |-> 0],
  pow |-> [smin |-> <<125000000, -1>>, lmin |-> -2079442, smax |-> <<800000000, 0>>, lmax |-> 2079442, qmin |-> -10, dmin |-> -20, olo |-> 10, ohi |-> 5, eps |-> 8],
  one |-> [smin |-> <<100000000, 0>>, lmin |-> 0, smax |-> <<100000000, 0>>, lmax |-> 0, qmin |-> 3, dmin |-> -1, olo |-> 2, ohi |-> 2, eps |-> 2],
  wide |-> [smin |-> <<807793567, -28>>, lmin |-> -62383246, smax |-> <<123794004, 27>>, lmax |-> 62383246, qmin |-> -100, dmin |-> -100, olo |-> 20, ohi |-> 20, eps |-> 20],
  none |-> [smin |-> <<100000000, -300>>, lmin |-> -690000000, smax |-> <<100000000, 300>>, lmax |-> 690000000, qmin |-> 0, dmin |-> 0, olo |-> 0, ohi |-> 0, eps |-> 0]]
\* "std" limits that are no powers of two
LogDmin(l) == IF l.dmin = 0 THEN LnDefaultMin ELSE l.dmin * LN2 + (l.dmin * LN2C) \div 100
LogitLo(l) == IF l.olo = 0 THEN LogitMilli ELSE -TwoTab[l.olo]
LogitHi(l) == IF l.ohi = 0 THEN -LogitMilli ELSE TwoTab[l.ohi]

\* ---- activation
SigAt(k) == SigTab[k + KMAX + 1]
ClampME(x, l) == IF LeqME(x, l.smin) THEN l.smin ELSE IF LeqME(l.smax, x) THEN l.smax ELSE x
ScaleActOk(in, o, l, ppd) ==
  CASE in[1] = "k" -> IsME(o, ClampME(ExpTab[in[2] + KMAX + 1], l), ppd)
    [] in[1] = "zero" -> IsME(o, ClampME(<<100000000, 0>>, l), ppd)
    [] in[1] = "hi" -> IsME(o, l.smax, ppd)
    [] OTHER -> IF l = Limits.none THEN Nothing(o) ELSE IsME(o, l.smin, ppd)
OpActOk(in, o, ppd) ==
  CASE in[1] = "k" -> IsME(o, SigAt(in[2]), ppd)
    [] in[1] = "zero" -> IsME(o, SigAt(0), ppd)
    [] in[1] = "hi" -> IsME(o, <<100000000, 0>>, ppd)
    [] OTHER -> Nothing(o)

\* ---- deactivation
Log23(in) == in[2] * LN2 + (in[2] * LN2C) \div 100 + in[3] * LN3
ScaleDeactOk(in, o, l) ==
  LET m == LogDmin(l) IN
  CASE in[1] = "p2" -> LET w == Max(Log23(in), m) IN IsMicro(o, w, Round(w)) \/ (Abs(w) >= 2000000000 /\ o.c = "num")
    [] in[1] = "hi" -> o.c = "num" /\ o.s = 1 /\ o.u > 80000000 /\ o.u < 90000000      \* the logarithm of a single-precision giant
    [] OTHER -> IsMicro(o, m, Round(m))
\* logit of x clamped to [lo, hi]; hitol: what single precision makes of an upper limit close to one
LogitOk(in, o, lo, hi, hitol) ==
  LET at(w, t) == IF w <= lo THEN IsMicro(o, lo, t + (IF hi > -lo + 2 \/ hi < -lo - 2 THEN 4 ELSE 4))
                  ELSE IF w >= hi THEN IsMicro(o, hi, t + hitol) ELSE IsMicro(o, w, t) IN
  CASE in[1] = "j" -> (IF in[2] = 0 THEN IsMicro(o, lo, 8) ELSE IF in[2] = 64 THEN IsMicro(o, hi, 8 + hitol) ELSE at(LogitTab[in[2]], 8))
    [] in[1] = "p2" -> at(-TwoTab[-in[2]], 8)
    [] in[1] = "q2" -> at(TwoTab[in[2]], 8)
    [] in[1] = "hi" -> IsMicro(o, hi, 8 + hitol)
    [] OTHER -> IsMicro(o, lo, 8)

\* ---- there and back
\* single-precision probabilities near one: their logit is known to 6e-8 / p / (1 - p)
Cond(w) == 10 + (ExpCeil[Min(17, Abs(w) \div 1000000 + 2)] * 12) \div 100
ScaleBackOk(in, o, l) ==
  LET c(w) == Max(Max(Min(w, l.lmax), l.lmin), LogDmin(l)) IN
  CASE in[1] = "k" -> LET w == c(in[2] * 250000) IN IsMicro(o, w, 4 + Round(w))
    [] in[1] = "zero" -> IsMicro(o, c(0), 8)
    [] in[1] = "hi" -> IsMicro(o, c(l.lmax), 4 + Round(l.lmax))
    [] OTHER -> IsMicro(o, c(l.lmin), 4 + Round(l.lmin))
OpBackOk(in, o, l) ==
  LET w == CASE in[1] = "k" -> in[2] * 250000 [] in[1] = "zero" -> 0 [] in[1] = "hi" -> 100000000 [] OTHER -> -100000000
      c == Max(Min(w, LogitHi(l)), LogitLo(l)) IN IsMicro(o, c, Cond(c) + (IF c = LogitHi(l) THEN 400 ELSE 0))
\* probability from p: limits again
OpForthOk(in, o, l) ==
  LET lo == IF l.olo = 0 THEN 100 ELSE 1000000 \div 2 ^ l.olo  hi == 1000000 - (IF l.ohi = 0 THEN 100 ELSE 1000000 \div 2 ^ l.ohi)
      p == CASE in[1] = "j" -> in[2] * 15625 [] in[1] = "p2" -> 1000000 \div 2 ^ (-in[2]) [] in[1] = "q2" -> 1000000 - 1000000 \div 2 ^ in[2]
             [] in[1] = "hi" -> 1000000 [] OTHER -> 0
  IN IsMicro(o, Max(Min(p, hi), lo), 3)
\* scale from 2^a * 3^b, |a| <= 6: limits of both directions
ScaleForthOk(in, o, l, ppd) ==
  LET v == (IF in[2] >= 0 THEN 2 ^ in[2] * 1000000 ELSE 1000000 \div 2 ^ (-in[2])) * (IF in[3] = 1 THEN 3 ELSE 1)
      me == IF v >= 100000000 THEN <<v, 2>> ELSE IF v >= 10000000 THEN <<v * 10, 1>> ELSE IF v >= 1000000 THEN <<v * 100, 0>>
            ELSE IF v >= 100000 THEN <<v * 1000, -1>> ELSE <<v * 10000, -2>> IN
  CASE in[1] = "p2" -> IsME(o, ClampME(me, l), ppd)
    [] in[1] = "hi" -> IsME(o, l.smax, ppd)
    [] OTHER -> IsME(o, ClampME(IF l.dmin = 0 THEN <<100000000, -9>> ELSE l.smin, l), ppd)

\* ---- tensors of half precision: eleven bits, nothing below 6e-8, limits computed in single precision
MicroOf(v) == IF v[2] < -7 THEN 0 ELSE v[1] \div 10 ^ (2 - v[2])
HalfIs(o, v) == IF v[2] <= -4 THEN IsMicro(o, MicroOf(v), 1) ELSE IsME(o, v, 1000)
HalfScaleActOk(in, o) ==
  CASE in[1] = "k" -> HalfIs(o, ExpTab[in[2] + KMAX + 1]) [] in[1] = "zero" -> HalfIs(o, <<100000000, 0>>) [] OTHER -> Nothing(o)
HalfOpActOk(in, o) ==
  CASE in[1] = "k" -> HalfIs(o, SigAt(in[2])) [] in[1] = "zero" -> HalfIs(o, SigAt(0)) [] in[1] = "hi" -> HalfIs(o, <<100000000, 0>>) [] OTHER -> Nothing(o)
HalfTol(w) == 10 + Abs(w) \div 2000
HalfScaleDeactOk(in, o, l) == LET w == IF in[1] = "p2" THEN Max(Log23(in), LogDmin(l)) ELSE LogDmin(l) IN IsMicro(o, w, HalfTol(w))
HalfLogitOk(in, o, lo, hi) ==
  LET x == CASE in[1] = "j" -> (IF in[2] = 0 THEN lo ELSE IF in[2] = 64 THEN hi ELSE LogitTab[in[2]])
             [] in[1] = "p2" -> -TwoTab[-in[2]] [] in[1] = "q2" -> TwoTab[in[2]] [] in[1] = "hi" -> hi [] OTHER -> lo
      w == Max(Min(x, hi), lo) IN IsMicro(o, w, HalfTol(w) + (IF w = hi THEN 400 ELSE 0))
HalfScaleBackOk(in, o, l) ==
  LET w == IF in[1] = "k" THEN in[2] * 250000 ELSE IF in[1] = "zero" THEN 0 ELSE LogDmin(l) IN IsMicro(o, w, 4000 + Abs(w) \div 2000)
HalfOpBackOk(in, o, lo, hi) ==
  /\ o.c \in {"num", "zero"} /\ o.u >= lo - HalfTol(lo) /\ o.u <= hi + HalfTol(hi) + 400
  /\ (in[1] = "k" /\ Abs(in[2]) <= 8) => IsMicro(o, in[2] * 250000, 5000)
HalfScaleForthOk(in, o, l) == IF in[1] = "p2" THEN ScaleForthOk(in, o, l, 200) ELSE Nothing(o)
HalfOpForthOk(in, o, l) ==
  LET p == CASE in[1] = "j" -> in[2] * 15625 [] in[1] = "p2" -> 1000000 \div 2 ^ (-in[2]) [] in[1] = "q2" -> 1000000 - 1000000 \div 2 ^ in[2]
             [] in[1] = "hi" -> 1000000 [] OTHER -> 0 IN IsMicro(o, Max(Min(p, 999900), 100), 1000)

\* ---- rotations: <<N, s>> is the norm N * 2^s of a rotation with integer parts q (times 2^s)
NormBelow(N, s, l) ==
  IF l.qmin # 0 THEN (IF l.qmin - s > 20 THEN TRUE ELSE IF l.qmin <= s THEN FALSE ELSE N < 2 ^ (l.qmin - s))
  ELSE IF s <= -34 THEN TRUE ELSE IF s >= -26 THEN FALSE ELSE N * 2 ^ (s + 34) * 58208 < 10000000
NormAt(N, s, l) == IF l.qmin # 0 THEN l.qmin - s \in 0..20 /\ N = 2 ^ (l.qmin - s) ELSE FALSE
UnitOf(q, N, o) == \A x \in 1..4 : o[x].c \in {"num", "zero"} /\ Abs(o[x].u * N - q[x] * 1000000) <= 4 * N
Identity(o) == \A x \in 1..4 : o[x].c \in {"num", "zero"} /\ o[x].u = (IF x = 4 THEN 1000000 ELSE 0)
RotOk(q, N, s, o, l) ==
  IF N = 0 THEN Identity(o)
  ELSE IF NormAt(N, s, l) THEN UnitOf(q, N, o) \/ Identity(o)
  ELSE IF NormBelow(N, s, l) THEN Identity(o) ELSE UnitOf(q, N, o)

\* ---- colours
ToRgbOk(in, o) == LET w == 500000 + in[2] * 35261 + (in[2] * 849) \div 1000 IN IsMicro(o, w, 3 + Abs(w) \div 1000000)
ToShOk(in, o) == LET w == (in[2] - 32) * 55389 + ((in[2] - 32) * 183) \div 1000 IN IsMicro(o, w, 3 + Abs(w) \div 1000000)
\* back again, whatever the value: a thousandth of a per mille, or of the unit near zero
SameOk(in, o, x, ppd) == IF x.c = "zero" \/ x.e < 0 THEN IsMicro(o, x.u, 3)
                         ELSE o.c = "num" /\ o.s = x.s /\ Close(ME(x), ME(o), ppd)
=============================================================================
