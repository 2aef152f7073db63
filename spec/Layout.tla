------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The uncompressed PLY file: where every value of a scene stands.          *)
(* Values are identities of float32 bit patterns (equal iff the same bits). *)
(* A scene row is [me, s0, sn, op, sc, qu], sn flattened band-major.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

K_OF == <<0, 3, 8, 15>>
Bands(d) == K_OF[d + 1]
Width(d) == 14 + 3 * Bands(d)

Names(d) == <<"x", "y", "z", "f_dc_0", "f_dc_1", "f_dc_2">>
            \o [i \in 1..(3 * Bands(d)) |-> "f_rest_" \o ToString(i - 1)]
            \o <<"opacity", "scale_0", "scale_1", "scale_2", "rot_0", "rot_1", "rot_2", "rot_3">>

(* file column c -> <<field, index>> *)
At(d, c) ==
  LET K == Bands(d) IN
  IF c <= 3 THEN <<"me", c>>
  ELSE IF c <= 6 THEN <<"s0", c - 3>>
  ELSE IF c <= 6 + 3 * K THEN LET j == c - 7 IN <<"sn", (j % K) * 3 + (j \div K) + 1>>   \* channel-grouped
  ELSE LET r == c - 6 - 3 * K IN
       IF r = 1 THEN <<"op", 1>> ELSE IF r <= 4 THEN <<"sc", r - 1>> ELSE <<"qu", r - 4>>

RowOk(d, row, cols) == Len(cols) = Width(d) /\ \A c \in 1..Width(d) : LET a == At(d, c) IN row[a[1]][a[2]] = cols[c]

Size == [me |-> 3, s0 |-> 3, op |-> 1, sc |-> 3, qu |-> 4]
FieldSize(d, f) == IF f = "sn" THEN 3 * Bands(d) ELSE Size[f]
Fields == {"me", "s0", "sn", "op", "sc", "qu"}

(* every (field, index) stands in exactly one column *)
Bijective(d) ==
  /\ Cardinality({At(d, c) : c \in 1..Width(d)}) = Width(d)
  /\ \A f \in Fields : \A i \in 1..FieldSize(d, f) : \E c \in 1..Width(d) : At(d, c) = <<f, i>>
ASSUME \A d \in 0..3 : Bijective(d) /\ Len(Names(d)) = Width(d)
=============================================================================
