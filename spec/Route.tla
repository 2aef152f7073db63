------------------------------- MODULE Route -------------------------------
(***************************************************************************)
(* Where a save goes, in which format, and what a directory holds after a    *)
(* history of saves, failed saves included.                                  *)
(* A name is [dir, stem, sfx], sfx the sequence of its dotted suffixes.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Full(n) == FoldLeft(LAMBDA a, s : a \o s, n.stem, n.sfx)
PathOf(n) == (IF n.dir = "" THEN "" ELSE n.dir \o "/") \o Full(n)
Last1(n) == IF n.sfx = <<>> THEN "" ELSE n.sfx[Len(n.sfx)]
Last2(n) == IF Len(n.sfx) < 2 THEN "" ELSE n.sfx[Len(n.sfx) - 1]
(* a name that is nothing but one suffix (".ply") is a hidden file without suffix *)
Ext(n) == IF n.stem = "" /\ Len(n.sfx) = 1 THEN "" ELSE Last1(n)
NamedCompressed(n) == Last1(n) = ".ply_compressed" \/ (Last1(n) = ".ply" /\ Last2(n) = ".compressed")

(* the documented rule of plywrite and GSData.save: a compressed name means compressed; asking for
   compression under another name makes it NAME.compressed.ply, in place of .ply if it ends in it *)
Routed(n, comp) ==
  IF NamedCompressed(n) THEN [to |-> PathOf(n), c |-> TRUE]
  ELSE IF ~comp THEN [to |-> PathOf(n), c |-> FALSE]
  ELSE IF Ext(n) = ".ply" THEN [to |-> PathOf([n EXCEPT !.sfx = Front(@)]) \o ".compressed.ply", c |-> TRUE]
  ELSE [to |-> PathOf(n) \o ".compressed.ply", c |-> TRUE]

ROUTED == {"plywrite", "plywrite_loose", "plywrite_gt", "gs_save"}
EXACT_C == {"gt_save", "gt_save_compressed", "plywrite_gpu", "write_compressed"}
EXACT_U == {"write_uncompressed"}
REFUSED == {"gpu_uncompressed", "missing_arrays"}     \* nothing may be written
BROKEN == {"bad_shape"}                               \* arrays that fit together in no scene
ENTRIES == ROUTED \cup EXACT_C \cup EXACT_U \cup REFUSED \cup BROKEN \cup {"gt_uncompressed"}

Goal(op) ==
  CASE op.e \in ROUTED -> Routed(op.nm, op.comp)
    [] op.e = "gt_uncompressed" -> Routed(op.nm, FALSE)
    [] op.e \in EXACT_C -> [to |-> PathOf(op.nm), c |-> TRUE]
    [] op.e \in EXACT_U -> [to |-> PathOf(op.nm), c |-> FALSE]
    [] OTHER -> Routed(op.nm, op.comp)

DIRS == {"", "d.ply", "x.compressed"}
(* does the save fail?  cut: the write stops after so many bytes; a folder that is not there; a refused call *)
Fails(op) == op.e \in REFUSED \cup BROKEN \/ op.cut # "none" \/ op.nm.dir \notin DIRS

(* fs: path -> [sc, c], sc = 0 for something no reader may accept *)
After(fs, op) ==
  LET g == Goal(op) IN
  IF ~Fails(op) THEN [p \in DOMAIN fs \cup {g.to} |-> IF p = g.to THEN [sc |-> op.sc, c |-> g.c] ELSE fs[p]]
  ELSE IF op.e \in REFUSED \/ op.nm.dir \notin DIRS THEN fs
  ELSE [p \in DOMAIN fs \cup {g.to} |-> IF p = g.to THEN [sc |-> 0, c |-> FALSE] ELSE fs[p]]
=============================================================================
