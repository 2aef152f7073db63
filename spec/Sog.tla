-------------------------------- MODULE Sog --------------------------------
(***************************************************************************)
(* What a SOG bundle denotes.  b holds the metadata and the RGBA pixels of   *)
(* each texture, row by row; ranges and codebooks are in 1/(16 2^u).         *)
(*   b.st = [mlo, mhi, slo, shi, scb, clo, chi, ccb, hlo, hhi, hcb, pal]     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
K_OF == <<0, 3, 8, 15>>
Bands(d) == K_OF[d + 1]
Abs(x) == IF x < 0 THEN -x ELSE x
UNIT == 16

(* a value on the line from lo to hi at v of m steps, in units of 1/(UNIT m) *)
Line(lo, hi, v, m) == lo * m + (hi - lo) * v

(* positions: 16 bits split over two textures, in log space; in 1/(16 2^u 65535).  An axis without a range has one
   value; readers may also give it a range of one *)
MeanBits(b, i, c) == b.px["means_l.webp"][i][c] + 256 * b.px["means_u.webp"][i][c]
MeanLog(b, i, c) == Line(b.st.mlo[c], b.st.mhi[c], MeanBits(b, i, c), 65535)
(* single precision of exp(x) - 1: half a unit in the last place of 1 *)
MeanTol(b) == CASE b.u = 20 -> 200000 [] b.u = 8 -> 40 [] OTHER -> 6
One(b) == CASE b.u = -4 -> 1 [] b.u = 0 -> 16 [] b.u = 8 -> 4096 [] OTHER -> 0
MeanFits(b, i, c, p) ==
  \/ Abs(p - MeanLog(b, i, c)) <= MeanTol(b)
  \/ /\ b.st.mlo[c] = b.st.mhi[c]
     /\ IF b.u = 20 THEN p > MeanBits(b, i, c) \/ p > 10000000
        ELSE Abs(p - (MeanLog(b, i, c) + One(b) * MeanBits(b, i, c))) <= MeanTol(b) + (IF b.u = 8 THEN 64 ELSE 0)

(* scales and colours: codebook entry (v2) or on a line (v3); in 1/(16*255) *)
Scale(b, i, c) == LET v == b.px["scales.webp"][i][c] IN
  IF b.v = 2 THEN 255 * b.st.scb[v + 1] ELSE Line(b.st.slo[c], b.st.shi[c], v, 255)
Color(b, i, c) == LET v == b.px["sh0.webp"][i][c] IN
  IF b.v = 2 THEN 255 * b.st.ccb[v + 1] ELSE Line(b.st.clo[c], b.st.chi[c], v, 255)
(* opacity: v2 stores sigmoid in 255 steps, v3 the logit on a line *)
Alpha(b, i) == b.px["sh0.webp"][i][4]
Logit3(b, i) == Line(b.st.clo[4], b.st.chi[4], Alpha(b, i), 255)

(* rotations: three components in 255 steps of 1/(255 sqrt2), the tag names the fourth *)
Tag(b, i) == b.px["quats.webp"][i][4]
Small(b, i) == [j \in 1..3 |-> 2 * b.px["quats.webp"][i][j] - 255]
FULL == 2 * 255 * 255

(* SH: the label picks one of the palette's entries; 64 entries per texture row *)
Label(b, i) == b.px["shN_labels.webp"][i][1] + 256 * b.px["shN_labels.webp"][i][2]
SH(b, i, j, ch) ==
  LET K == Bands(b.d) l == Label(b, i) IN
  IF l >= b.st.pal THEN 0
  ELSE LET p == (l \div 64) * (64 * K) + (l % 64) * K + j
           v == b.px["shN_centroids.webp"][p][ch]
       IN IF b.v = 2 THEN 255 * b.st.hcb[v + 1] ELSE Line(b.st.hlo, b.st.hhi, v, 255)

Used(b) == {"meta.json", "means_l.webp", "means_u.webp", "quats.webp", "scales.webp", "sh0.webp"}
           \cup (IF b.d > 0 THEN {"shN_centroids.webp", "shN_labels.webp"} ELSE {})

(* ---- a decoded scene against the bundle ----
   dec.P: sign(x) ln(|x|+1) * 16 * 65535; S, C, H: value * 16 * 255; O: sigmoid * 2550 (v2); OL: logit * 16 * 255;
   R: 4 components * 255 sqrt2 *)
RowBad(b, de, i) ==
  LET t == Tag(b, i)
      y == Small(b, i)
      R == de.R[i]
      big == t - 251
      g == R[big]
      rest == FULL - (y[1] * y[1] + y[2] * y[2] + y[3] * y[3])
  IN (IF \A c \in 1..3 : MeanFits(b, i, c, de.P[i][c]) THEN {} ELSE {"position"})
     \cup (IF \A c \in 1..3 : Abs(de.S[i][c] - Scale(b, i, c)) <= 1 THEN {} ELSE {"scale"})
     \cup (IF \A c \in 1..3 : Abs(de.C[i][c] - Color(b, i, c)) <= 1 THEN {} ELSE {"color"})
     \cup (IF b.v = 3 THEN (IF Abs(de.OL[i] - Logit3(b, i)) <= 1 THEN {} ELSE {"opacity"})
           ELSE IF Abs(de.O[i] - 10 * Alpha(b, i)) <= 1 /\ Abs(de.OL[i]) <= 14 * 4080
                   /\ (Alpha(b, i) \in {0, 255} => Abs(de.OL[i]) >= 13 * 4080) THEN {} ELSE {"opacity"})
     \cup (IF IF t < 252 THEN R[1] = 0 /\ R[2] = 0 /\ R[3] = 0 /\ Abs(R[4] - 361) <= 1
              ELSE /\ \A j \in 1..3 : Abs(R[IF j < big THEN j ELSE j + 1] - y[j]) <= 1
                   /\ IF rest <= 0 THEN g = 0 ELSE Abs(g * g - rest) <= 2 * g + 2
           THEN {} ELSE {"rotation"})
     \cup (IF b.d = 0 \/ \A j \in 1..Bands(b.d), ch \in 1..3 : Abs(de.H[i][(j - 1) * 3 + ch] - SH(b, i, j, ch)) <= 1
           THEN {} ELSE {"sh"})
SceneBad(b, de) ==
  IF de.n # b.n THEN {"count"}
  ELSE IF de.d # b.d \/ (b.n > 0 /\ de.k # Bands(b.d)) THEN {"degree"}
  ELSE UNION {RowBad(b, de, i) : i \in 1..b.n}
=============================================================================
