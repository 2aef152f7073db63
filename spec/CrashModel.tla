----------------------------- MODULE CrashModel -----------------------------
(* Ways of saving as state machines, killed at every moment.  "append" (truncate, then write front to back) and "rename" (write elsewhere, then
   take the name) never show anything but the old scene, the new one or a torn file that a reader refuses by its length; writing over the old
   bytes, reserving the length first, or writing the head last show files of full length that are no scene (HONEST = FALSE finds them). *)
EXTENDS Crash
CONSTANTS HONEST, HEAD, BODY
VARIABLES how, s, done, pc
vars == <<how, s, done, pc>>
TOTAL == HEAD + BODY
W(off, len) == [op |-> "write", f |-> 2, off |-> off, len |-> len, eq |-> TRUE]
On1(o) == [o EXCEPT !.f = 1]
C(op, f, len) == [op |-> op, f |-> f, off |-> 0, len |-> len, eq |-> TRUE]
Plan(h) == CASE h = "append" -> <<C("trunc", 1, 0), On1(W(0, HEAD)), On1(W(HEAD, BODY))>>
             [] h = "rename" -> <<C("create", 2, 0), W(0, HEAD), W(HEAD, BODY), C("name", 2, 0)>>
             [] h = "over" -> <<On1(W(0, HEAD)), On1(W(HEAD, BODY)), C("size", 1, TOTAL)>>
             [] h = "reserve" -> <<C("trunc", 1, 0), C("size", 1, TOTAL), On1(W(0, HEAD)), On1(W(HEAD, BODY))>>
             [] OTHER -> <<C("trunc", 1, 0), On1(W(HEAD, BODY)), On1(W(0, HEAD))>>
OLDS == {1, TOTAL - 1, TOTAL, TOTAL + 3}
Init == /\ how \in (IF HONEST THEN {"append", "rename"} ELSE {"append", "rename", "over", "reserve", "head last"})
        /\ \E l \in OLDS : s = Step(Empty, C("old", 1, l), l)
        /\ done = 0 /\ pc = 1
Go == /\ pc <= Len(Plan(how))
      /\ LET o == Plan(how)[pc] IN
           IF o.op = "write" /\ done < o.len
           THEN /\ s' = Step(s, [o EXCEPT !.off = @ + done], 1) /\ done' = done + 1 /\ pc' = pc
           ELSE /\ s' = (IF o.op = "write" THEN s ELSE Step(s, o, 0)) /\ done' = 0 /\ pc' = pc + 1
      /\ UNCHANGED how
Spec == Init /\ [][Go]_vars
(* a reader knows the length from the head once the head is there; then it sees only how much follows *)
HeadThere(x) == \E i \in x.good : i[1] = 0 /\ i[2] >= HEAD
Reader == IF s.at = 0 THEN "refused"
          ELSE LET x == s.fs[s.at] IN
               IF x.old THEN "old" ELSE IF ~HeadThere(x) \/ x.len < TOTAL THEN "refused"
               ELSE IF <<0, TOTAL>> \in x.good THEN "new" ELSE "garbage"
NeverGarbage == Reader \in MayRead(Class(s, TOTAL))
Finished == pc > Len(Plan(how)) => Class(s, TOTAL) = "new"
KeepsOld == how = "rename" => Class(s, TOTAL) \in {"old", "new"}
=============================================================================
