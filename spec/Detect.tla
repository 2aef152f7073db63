------------------------------- MODULE Detect -------------------------------
(* What label a container gets that is made without one, from counts over its values alone.
   A profile is  n       gaussians
                 neg     how many of the 3n scale values are negative
                 mag     the largest scale magnitude against 10: "lt" "eq" "gt", or "nan" when one is not a number
                 inr     how many of the n opacities lie within [0, 1], both ends included
   All comparisons are over integers: shares are never rounded. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bands(d) == <<0, 3, 8, 15>>[d + 1]

ScalesOf(p) ==
  IF p.n = 0 THEN "PLY"
  ELSE IF 10 * p.neg > 3 * p.n \/ p.mag = "gt" THEN "PLY"
  ELSE IF p.neg = 0 /\ p.mag = "lt" THEN "LINEAR"
  ELSE "PLY"                                     \* undecided
OpacOf(p) ==
  IF p.n = 0 THEN "PLY"
  ELSE IF 10 * p.inr < 9 * p.n THEN "PLY"
  ELSE IF 20 * p.inr > 19 * p.n THEN "LINEAR"
  ELSE "PLY"                                     \* undecided
Auto(p) == <<ScalesOf(p), OpacOf(p)>>

Presets == {"auto", "ply", "linear", "rasterizer"}
Values(preset, p) ==
  CASE preset = "auto" -> Auto(p)
    [] preset = "ply" -> <<"PLY", "PLY">>
    [] OTHER -> <<"LINEAR", "LINEAR">>
(* The whole label: values, SH colour as the caller says (SH unless told otherwise), SH order as the data has bands. *)
Label(preset, sh0, d, p) == Values(preset, p) \o <<sh0, ToString(d)>>
=============================================================================
