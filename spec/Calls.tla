-------------------------------- MODULE Calls --------------------------------
(* Calls do not interfere.  gsply's functions are pure calls on values: whatever other calls run in    *)
(* the same process - before, inside (another thread gets the processor between any two steps) or     *)
(* after being cut off half way by an interrupt - a call's answer is Ans(call), a function of the call *)
(* alone, and the scenes and files it reads stay as they were.                                         *)
(*                                                                                                     *)
(* The world is a set of scenes, files and byte strings nobody may change; `own` calls make their own  *)
(* copy first and change that.  State: how far every thread is; transitions: Begin, End, Cut.          *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
\* ---- the world ---------------------------------------------------------------------------------
\* scenes: separate, packed, a view, with layers, linear (two runs), empty, incoherent shapes; tensors: separate, packed, linear with layers
\* files: uncompressed, compressed, SOG, not a scene, torn, missing; byte strings: compressed, torn, SOG.  The twin of a scene or file
\* has the same shape and other values.
TWINS == {<<"A", "A2">>, <<"P", "P2">>, <<"M", "M2">>, <<"L", "L2">>, <<"T", "T2">>, <<"Q", "Q2">>, <<"R", "R2">>, <<"fu", "fu2">>, <<"fc", "fc2">>, <<"fs", "fs2">>, <<"bc", "bc2">>, <<"bs", "bs2">>}
TWINNED == {p[1] : p \in TWINS}
Twin(x) == (CHOOSE p \in TWINS : p[1] = x)[2]
NP == {"A", "P", "V", "M", "L", "E", "I"}
PT == {"T", "Q", "R"}
FILES == {"fu", "fc", "fs", "fx", "ft", "fn"}
BYTES == {"bc", "bt", "bs"}
WORLD == NP \cup PT \cup FILES \cup BYTES \cup {p[2] : p \in TWINS}
\* ---- calls ---------------------------------------------------------------------------------------
BOTH == {"copy", "pickle", "deepcopy", "slice", "step", "row", "rows", "mask", "outside", "write", "writec", "cbytes", "carrays", "norm", "denorm", "rgb", "sh", "cons",
         "dict", "unpack", "other", "own_norm", "own_act", "own_layer", "own_field", "own_rgb", "nowhere", "get", "degree", "labels"}
ONLYNP == {"contig", "own_contig", "crows", "iter", "loose", "loosec", "activate", "deactivate", "detect"}
ONLYPT == {"half", "double", "plydata", "plytensor"}
LAYERED == {"layers", "inverse", "own_apply"}
TWO == {"plus", "concat", "sum"}
ONFILE == {"read", "load", "tload", "isc", "sog"}
ONBYTES == {"dec", "tdec", "sogb"}
Call(op, x, y) == [op |-> op, x |-> x, y |-> y]
COHERENT == (NP \ {"I"}) \cup PT
CALLS ==
  {Call(op, x, "") : op \in BOTH \ {"nowhere"}, x \in COHERENT}
  \cup {Call(op, x, "") : op \in ONLYNP, x \in NP \ {"I"}}
  \cup {Call(op, x, "") : op \in ONLYPT, x \in PT}
  \cup {Call(op, x, "") : op \in LAYERED, x \in {"M", "R"}}
  \cup {Call(op, x, y) : op \in TWO, x \in {"A", "P", "V", "M"}, y \in {"A", "P", "M", "E"}}
  \cup {Call(op, x, y) : op \in TWO, x \in PT, y \in {"T", "Q"}}
  \cup {Call("write", "I", ""), Call("writec", "I", ""), Call("cons", "I", ""), Call("other", "I", ""), Call("nowhere", "A", ""), Call("nowhere", "T", "")}
  \cup {Call(op, f, "") : op \in ONFILE, f \in FILES}
  \cup {Call(op, b, "") : op \in ONBYTES, b \in BYTES}
  \cup {Call("curves", "A", ""), Call("curves", "L", "")}
\* calls whose answer takes several steps on several fields: where interference would be felt
HEAVY == {"write", "writec", "cbytes", "carrays", "read", "tload", "dec", "tdec", "sog", "plus", "concat", "cons", "mask", "norm", "other", "layers", "plydata", "loose", "loosec", "activate"}
\* ---- what the threads do -----------------------------------------------------------------------
\* an event is <<thread, kind, call number, answer>>; kinds: begin, end, cut
Start(progs) == [pc |-> [t \in 1..Len(progs) |-> 1], in |-> [t \in 1..Len(progs) |-> FALSE], bad |-> {}]
Name(c) == c.op \o " " \o c.x \o (IF c.y = "" THEN "" ELSE "," \o c.y)
\* Ans is what the call answers alone; the answer of a call that was cut is of no interest, but it may only be
\* left by the interrupt, or be finished with the right answer
After(progs, Ans(_), s, e) ==
  LET t == e[1] IN
  IF e[3] # s.pc[t] \/ e[3] > Len(progs[t]) THEN [s EXCEPT !.bad = @ \cup {"order"}]
  ELSE LET c == progs[t][e[3]] IN
    CASE e[2] = "begin" -> IF s.in[t] THEN [s EXCEPT !.bad = @ \cup {"order"}] ELSE [s EXCEPT !.in[t] = TRUE]
      [] e[2] = "end" -> [s EXCEPT !.in[t] = FALSE, !.pc[t] = @ + 1, !.bad = @ \cup (IF ~s.in[t] THEN {"order"} ELSE IF e[4] = Ans(c) THEN {} ELSE {"answer: " \o Name(c)})]
      [] e[2] = "cut" -> [s EXCEPT !.in[t] = FALSE, !.pc[t] = @ + 1, !.bad = @ \cup (IF s.in[t] THEN {} ELSE {"order"})]
      [] OTHER -> [s EXCEPT !.bad = @ \cup {"order"}]
RunAll(progs, Ans(_), events) == FoldLeft(LAMBDA s, e : TLCEval(After(progs, Ans, s, e)), Start(progs), events)
Finished(progs, s) == \A t \in 1..Len(progs) : s.pc[t] = Len(progs[t]) + 1 /\ ~s.in[t]
=============================================================================
