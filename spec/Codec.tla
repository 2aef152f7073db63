------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The compressed PLY format, over integers.                                *)
(*                                                                          *)
(* A scene is given in integer units:                                       *)
(*   P,S,C : rows of 3 coordinates / log-scales / DC colours, in units the  *)
(*           driver multiplies by a power of two (so exact in float32)      *)
(*   O     : opacity as sigmoid(o) * 2040 (eighths of a byte step)          *)
(*   R     : <<largest, sign, y1, y2, y3>> the three smaller components in   *)
(*           quarters of a step: x_i = y_i / (4 sqrt2 1023), |q| arbitrary   *)
(*   H     : SH coefficients [k][channel] flattened k-major, in 1/256       *)
(* A stream is what the bytes of the file are: per-run bounds B (18 ints in  *)
(* the same units), words W (4 words as <<hi,lo>> 16-bit halves), bytes X.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RUN == 256
SCALE_LIMIT == 5120                    \* 20 in units of 1/256
K_OF == <<0, 3, 8, 15>>                \* bands of degree d at index d+1
Bands(d) == K_OF[d + 1]

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(hi, x))

NRuns(n) == (n + RUN - 1) \div RUN
RunOf(i) == (i - 1) \div RUN + 1
RunRows(j, n) == (RUN * (j - 1) + 1)..Min2(RUN * j, n)

(* ---- fields of the packed words ---- *)
Posn(w) == <<w[1] \div 32, (w[1] % 32) * 32 + w[2] \div 2048, w[2] % 2048>>
Scal(w) == Posn(w)
Rotn(w) == <<w[1] \div 16384, (w[1] \div 16) % 1024, (w[1] % 16) * 64 + w[2] \div 1024, w[2] % 1024>>
Colr(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>

STEPS == <<2047, 1023, 2047>>

(* q is the nearest of the M+1 steps between lo and hi to u; `sl` extra thousandths of a step
   for float rounding near ties (slack 2000 = one whole step) *)
Nearest(q, u, lo, hi, M, sl) ==
  LET R == hi - lo
      v == Clamp(u, lo, hi)
  IN R = 0 \/ LET e == Abs(q * R - (v - lo) * M)
              IN e <= R + R \div 2 + 2 /\ 2 * e <= R + (R \div 1000) * sl + 2

(* an 8-bit SH code denotes (2q-255)/64; the input is in 1/256, limited to the codes *)
NearestSH(q, v, sl) == IF v >= 1022 THEN q >= 255 - sl ELSE IF v <= -1022 THEN q <= sl
                       ELSE Abs(v - 8 * q + 1020) <= 4 + 8 * sl

NearestOp(q, p, sl) == Abs(8 * q - p) <= 4 + 8 * sl

(* rotation: index of the largest component and the three others in index order *)
Mag2(r) == r[3] * r[3] + r[4] * r[4] + r[5] * r[5]
FULL == 16 * 2 * 1023 * 1023
NearestRot(f, r, sl) ==
  /\ f[1] = r[1]
  /\ \A j \in 1..3 : Abs(4 * (2 * f[j + 1] - 1023) - r[2] * r[j + 2]) <= 4 + 8 * sl

(* ---- an encoded stream is right for a scene ---- *)
MinOf(s, rows, c) == LET vs == {s[i][c] : i \in rows} IN CHOOSE m \in vs : \A x \in vs : m <= x
MaxOf(s, rows, c) == LET vs == {s[i][c] : i \in rows} IN CHOOSE m \in vs : \A x \in vs : m >= x

BoundsOk(sc, st, j) ==
  LET rows == RunRows(j, sc.n)
      b == st.B[j]
  IN \A c \in 1..3 :
       /\ b[c] = MinOf(sc.P, rows, c) /\ b[c + 3] = MaxOf(sc.P, rows, c)
       /\ b[c + 6] = Clamp(MinOf(sc.S, rows, c), -SCALE_LIMIT, SCALE_LIMIT)
       /\ b[c + 9] = Clamp(MaxOf(sc.S, rows, c), -SCALE_LIMIT, SCALE_LIMIT)
       /\ b[c + 12] = MinOf(sc.C, rows, c) /\ b[c + 15] = MaxOf(sc.C, rows, c)

RowBad(sc, st, i, sl) ==
  LET b == st.B[RunOf(i)]
      p == Posn(st.W[i][1])
      r == Rotn(st.W[i][2])
      s == Scal(st.W[i][3])
      k == Colr(st.W[i][4])
  IN (IF \A c \in 1..3 : Nearest(p[c], sc.P[i][c], b[c], b[c + 3], STEPS[c], sl) THEN {} ELSE {"position"})
     \cup (IF \A c \in 1..3 : Nearest(s[c], sc.S[i][c], b[c + 6], b[c + 9], STEPS[c], sl) THEN {} ELSE {"scale"})
     \cup (IF \A c \in 1..3 : Nearest(k[c], sc.C[i][c], b[c + 12], b[c + 15], 255, sl) THEN {} ELSE {"color"})
     \cup (IF NearestOp(k[4], sc.O[i], sl \div 2000) THEN {} ELSE {"opacity"})
     \cup (IF NearestRot(r, sc.R[i], sl \div 2000) THEN {} ELSE {"rotation"})
     \cup (IF sc.d = 0 \/ st.X = <<>> \/ \A k2 \in 1..Bands(sc.d), ch \in 1..3 :
              NearestSH(st.X[i][(ch - 1) * Bands(sc.d) + k2], sc.H[i][(k2 - 1) * 3 + ch], sl \div 2000)
           THEN {} ELSE {"sh"})

(* sl = 1: nearest step up to float rounding; sl = 2000: off by at most one step *)
EncodeBad(sc, st, sl) ==
  IF st.n # sc.n THEN {"count"}
  ELSE IF Len(st.B) # NRuns(sc.n) \/ Len(st.W) # sc.n THEN {"size"}
  ELSE IF sc.d # st.d \/ (sc.d > 0 /\ Len(st.X) # sc.n) THEN {"degree"}
  ELSE LET bb == {j \in 1..NRuns(sc.n) : ~BoundsOk(sc, st, j)}
       IN IF bb # {} THEN {"bounds"}
          ELSE UNION {RowBad(sc, st, i, sl) : i \in 1..sc.n}

(* ---- a decoded scene is right for a stream ----
   dec.P/S/C rows of 3: value * steps / unit; O: sigmoid*2040; OL: logit * 1000;
   R: 4 components * 4 sqrt2 1023; H: value * 64 *)
DecRowBad(st, de, i, tol) ==
  LET b == st.B[RunOf(i)]
      p == Posn(st.W[i][1])
      r == Rotn(st.W[i][2])
      s == Scal(st.W[i][3])
      k == Colr(st.W[i][4])
      Lin(q, lo, hi, M, got) == Abs(lo * M + q * (hi - lo) - got) <= tol
      big == r[1] + 1
      y == [j \in 1..3 |-> 4 * (2 * r[j + 1] - 1023)]
      small == [j \in 1..3 |-> de.R[i][IF j < big THEN j ELSE j + 1]]
      rest == FULL - (y[1] * y[1] + y[2] * y[2] + y[3] * y[3])
      g == de.R[i][big]
  IN (IF \A c \in 1..3 : Lin(p[c], b[c], b[c + 3], STEPS[c], de.P[i][c]) THEN {} ELSE {"position"})
     \cup (IF \A c \in 1..3 : Lin(s[c], b[c + 6], b[c + 9], STEPS[c], de.S[i][c]) THEN {} ELSE {"scale"})
     \cup (IF \A c \in 1..3 : Lin(k[c], b[c + 12], b[c + 15], 255, de.C[i][c]) THEN {} ELSE {"color"})
     \cup (IF Abs(8 * k[4] - de.O[i]) <= 1 /\ Abs(de.OL[i]) <= 10001 THEN {} ELSE {"opacity"})
     \cup (IF /\ \A j \in 1..3 : Abs(y[j] - small[j]) <= 2
              /\ g >= 0 /\ g <= 6000 /\ (rest >= 0 => Abs(g * g - rest) <= 6 * g + 60)
           THEN {} ELSE {"rotation"})
     \cup (IF st.d = 0 \/ st.X = <<>> \/ \A k2 \in 1..Bands(st.d), ch \in 1..3 :
              de.H[i][(k2 - 1) * 3 + ch] = 2 * st.X[i][(ch - 1) * Bands(st.d) + k2] - 255
           THEN {} ELSE {"sh"})

(* bounds that are no integers in the units of the case cannot be judged in integers *)
BoundsUsable(st) == \A j \in 1..Len(st.B), c \in 1..18 : Abs(st.B[j][c]) <= 20000

DecodeBad(st, de, tol) ==
  IF de.n # st.n THEN {"count"}
  ELSE IF de.d # st.d THEN {"degree"}
  ELSE UNION {DecRowBad(st, de, i, tol) : i \in 1..st.n}

(* ---- the header of a stream ---- *)
Bound18 == <<"min_x", "min_y", "min_z", "max_x", "max_y", "max_z", "min_scale_x", "min_scale_y", "min_scale_z",
             "max_scale_x", "max_scale_y", "max_scale_z", "min_r", "min_g", "min_b", "max_r", "max_g", "max_b">>
Word4 == <<"packed_position", "packed_rotation", "packed_scale", "packed_color">>
HeaderOf(n, d) ==
  <<[name |-> "chunk", count |-> NRuns(n), ptype |-> "float", props |-> Bound18],
    [name |-> "vertex", count |-> n, ptype |-> "uint", props |-> Word4]>>
  \o (IF d = 0 THEN <<>>
      ELSE <<[name |-> "sh", count |-> n, ptype |-> "uchar",
              props |-> [i \in 1..(3 * Bands(d)) |-> "f_rest_" \o ToString(i - 1)]]>>)
=============================================================================
