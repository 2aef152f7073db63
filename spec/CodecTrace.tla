----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Every logged stream against the scene it encodes, every decoded scene    *)
(* against the stream it was decoded from.                                  *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done

Cl(b, name) == IF b THEN {} ELSE {name}
Pre(p, s) == {p \o x : x \in s}
Str(x) == ToString(x)

(* what detection says of loose arrays (see Detect.tla); scales in 1/256, opacities in 1/2040 *)
NegCount(sc) == Cardinality({<<i, c>> \in (1..sc.n) \X (1..3) : sc.S[i][c] < 0})
MaxAbs(sc) == LET v == {Abs(sc.S[i][c]) : i \in 1..sc.n, c \in 1..3} IN CHOOSE m \in v : \A x \in v : x <= m
In01(sc) == Cardinality({i \in 1..sc.n : sc.O[i] >= 1020 /\ sc.O[i] <= 1491})
LooksPly(sc, tiny) ==   \* tiny: the unit of the scales is 2^-20
  sc.n = 0 \/ (/\ (NegCount(sc) > 0 \/ (~tiny /\ MaxAbs(sc) >= 2560))
               /\ 100 * In01(sc) <= 95 * sc.n)

Dressed(L) == L.case.kind = "dec" /\ L.case.dress # "plain"
Tiny(L) == L.case.kind = "enc" /\ L.case.scl = "tiny" /\ L.case.src # "pt2"
TinyC(L) == L.case.kind = "enc" /\ L.case.col = "tiny"

StreamBad(L, s) ==
  LET exact == L.case.src \notin {"lin", "rgb"}
      loose == s.kind = "loose"
      g == s.cls
  IN IF loose /\ ~(L.case.far > 0 \/ LooksPly(L.sc, Tiny(L))) THEN {}
     ELSE Cl(s.hdr = HeaderOf(L.sc.n, L.sc.d), g \o ":header")
          \cup Cl(s.tail = 0 \/ Dressed(L), g \o ":trailing")
          \cup (IF s.hdr # HeaderOf(L.sc.n, L.sc.d) THEN {}
                ELSE (IF exact /\ g # "given"
                      THEN LET far == EncodeBad(L.sc, s.st, 2000)
                               \* colors so close together that rounding them alone can move a step
                               e == IF TinyC(L) THEN (EncodeBad(L.sc, s.st, 1) \ {"color"}) \cup far ELSE EncodeBad(L.sc, s.st, 1)
                           IN Pre(g \o ":enc:", e) \cup (IF e = {} THEN {} ELSE Pre(g \o ":far:", far))
                      ELSE {})
                     \cup UNION {Pre(s.dec[x].cls \o ":dec:",
                                  IF s.dec[x].err # "" THEN (IF Dressed(L) THEN {} ELSE {"raised"}) ELSE IF BoundsUsable(s.st) THEN DecodeBad(s.st, s.dec[x].de, 8)
                                  ELSE IF exact THEN {"bounds"} ELSE {}) : x \in 1..Len(s.dec)})

(* one stream for one scene: all array writers (and loose arrays, when they are taken as PLY) agree *)
SameBad(L) ==
  LET same == {L.streams[x].tok : x \in {y \in 1..Len(L.streams) : L.streams[y].cls = "cpu" /\ L.streams[y].kind = "obj"}}
      loose == {L.streams[x].tok : x \in {y \in 1..Len(L.streams) : L.streams[y].kind = "loose"}}
  IN Cl(Cardinality(same) <= 1, "same:container")
     \cup (IF L.case.kind = "enc" /\ L.case.src \notin {"lin", "rgb"} /\ (L.case.far > 0 \/ LooksPly(L.sc, Tiny(L)))
           THEN Cl(Cardinality(same \cup loose) <= 1, "same:loose") ELSE Cl(Cardinality(loose) <= 1, "same:loose"))
\* a dressed stream may be refused, by all readers of arrays then
SameDec(s) ==   \* the in-memory decoder and the file reader return the same bits
  Cl(Cardinality({s.dec[x].tok : x \in {y \in 1..Len(s.dec) : s.dec[y].cls = "cpu"}}) <= 1, "same:decoded")
Near(a, b) ==   \* array and tensor decoders: up to float rounding
  /\ a.n = b.n /\ a.d = b.d
  /\ \A i \in 1..a.n : Abs(a.OL[i] - b.OL[i]) <= 2
CrossDec(s) ==
  Cl(\A x, y \in 1..Len(s.dec) : (s.dec[x].err = "" /\ s.dec[y].err = "") => Near(s.dec[x].de, s.dec[y].de), "cross:opacity")

Verdict(L) ==
  UNION {StreamBad(L, L.streams[x]) \cup SameDec(L.streams[x]) \cup CrossDec(L.streams[x]) : x \in 1..Len(L.streams)}
  \cup SameBad(L)
  \cup {"raised:" \o L.errs[x][1] : x \in 1..Len(L.errs)}
  \cup {"missing:" \o w : w \in {L.need[x] : x \in 1..Len(L.need)} \
          UNION {{L.streams[x].wr[y] : y \in 1..Len(L.streams[x].wr)} : x \in 1..Len(L.streams)}}

Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
