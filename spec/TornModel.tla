------------------------------ MODULE TornModel ------------------------------
(* The writer as a state machine: blocks appended byte by byte, a crash anywhere, possibly over an old file. *)
EXTENDS Torn
CONSTANTS NS, DS
VARIABLES hdr, kind, len, phase
Init == /\ phase = "saving" /\ len = 0
        /\ \E n \in NS, d \in DS : \/ hdr = CanonU(n, d) /\ kind = "u"
                                   \/ hdr = CanonC(n, d) /\ kind = "c"
Write == phase = "saving" /\ len < Total(hdr) /\ len' = len + 1 /\ UNCHANGED <<hdr, kind, phase>>
Crash == phase = "saving" /\ len < Total(hdr) /\ phase' = "torn" /\ UNCHANGED <<hdr, kind, len>>
Close == phase = "saving" /\ len = Total(hdr) /\ phase' = "saved" /\ UNCHANGED <<hdr, kind, len>>
Next == Write \/ Crash \/ Close
Spec == Init /\ [][Next]_<<hdr, kind, len, phase>>
Readers == READERS_U \cup READERS_C
(* no interrupted save can be read; a finished one can *)
TornRefused == phase = "torn" => \A r \in Readers : Answer(kind, hdr, len, r) = "refused"
SavedLoads == phase = "saved" => \A r \in Readers : Answer(kind, hdr, len, r) = (IF r \in (IF kind = "u" THEN READERS_U ELSE READERS_C) THEN "ok" ELSE "refused")
(* the header alone tells how long the file is: no other file of the family shares it *)
Sized == Total(hdr) >= HeadLen(hdr) /\ Cardinality(Ends(hdr)) <= 4
=============================================================================
