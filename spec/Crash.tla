------------------------------- MODULE Crash -------------------------------
(***************************************************************************)
(* What a save leaves behind when the process is killed at any moment.       *)
(* Files are known by number; `at` says which of them the target name is     *)
(* (0: none).  Of a file only matters whether it is still the older scene,   *)
(* how long it is and which of its bytes are those of the finished save.     *)
(*   ops: [op, f, off, len, eq]                                              *)
(*     create f | old f: the target name is file f from before | trunc f     *)
(*     write f off len eq | size f len | name f (the target name is now f)   *)
(*     unname (the target name is gone)                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Fresh == [old |-> FALSE, len |-> 0, good |-> {}]
Empty == [at |-> 0, fs |-> <<>>]
Put(fs, f, x) == [k \in 1..(IF f > Len(fs) THEN f ELSE Len(fs)) |-> IF k = f THEN x ELSE IF k <= Len(fs) THEN fs[k] ELSE Fresh]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
(* half-open intervals of good bytes *)
Minus(g, a, b) == {i \in UNION {{<<i[1], Min2(i[2], a)>>, <<Max2(i[1], b), i[2]>>} : i \in g} : i[1] < i[2]}
Plus(g, a, b) == LET t == {i \in g : i[1] <= b /\ i[2] >= a}
                     lo == CHOOSE x \in {i[1] : i \in t} \cup {a} : \A y \in {i[1] : i \in t} \cup {a} : x <= y
                     hi == CHOOSE x \in {i[2] : i \in t} \cup {b} : \A y \in {i[2] : i \in t} \cup {b} : x >= y
                 IN (g \ t) \cup {<<lo, hi>>}
Written(x, off, len, eq) ==
  IF len = 0 THEN x
  ELSE [old |-> FALSE, len |-> Max2(x.len, off + len),
        good |-> IF eq THEN Plus(x.good, off, off + len) ELSE Minus(x.good, off, off + len)]
Sized(x, len) == IF len = x.len THEN x ELSE [old |-> FALSE, len |-> len, good |-> Minus(x.good, len, Max2(x.len, len))]

(* one step, `m` bytes of it done in the case of a write *)
Step(s, o, m) ==
  CASE o.op = "create" -> [s EXCEPT !.fs = Put(@, o.f, Fresh)]
    [] o.op = "old" -> [at |-> o.f, fs |-> Put(s.fs, o.f, [old |-> TRUE, len |-> o.len, good |-> {}])]
    [] o.op = "trunc" -> [s EXCEPT !.fs = Put(@, o.f, Fresh)]
    [] o.op = "write" -> [s EXCEPT !.fs = Put(@, o.f, Written(s.fs[o.f], o.off, m, o.eq))]
    [] o.op = "size" -> [s EXCEPT !.fs = Put(@, o.f, Sized(s.fs[o.f], o.len))]
    [] o.op = "name" -> [s EXCEPT !.at = o.f]
    [] o.op = "unname" -> [s EXCEPT !.at = 0]
After(ops, i) == FoldLeft(LAMBDA s, o : Step(s, o, o.len), Empty, SubSeq(ops, 1, i))

(* what the target name denotes *)
Class(s, total) ==
  IF s.at = 0 THEN "absent"
  ELSE LET x == s.fs[s.at] IN
       IF x.old THEN "old"
       ELSE IF <<0, total>> \in x.good \/ (total = 0 /\ x.len = 0)
            THEN IF x.len = total THEN "new" ELSE "long"      \* "long": the finished save and something behind it
            ELSE "torn"
(* what a reader may answer *)
MayRead(class) == CASE class = "absent" -> {"refused"} [] class = "old" -> {"old"} [] class = "new" -> {"new"}
                    [] class = "long" -> {"new", "refused"} [] OTHER -> {"refused"}
=============================================================================
