----------------------------- MODULE ShapesTrace -----------------------------
EXTENDS Shapes, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}
WIDTH(f, k) == IF f = "shN" THEN 3 * k ELSE IF f = "opacities" THEN 1 ELSE COLS[f]

\* how: "refused" | "stored"; n, k: of what was stored; rows: per field the stored rows (small scenes whose values are stored exactly)
Stored(c, o) ==
  LET n == Rows(c) k == LooseBands(c) IN
  Cl(o.n = n, "rows") \cup Cl(o.k = k, "bands") \cup Cl(o.whole, "torn")
  \cup (IF ~o.exact THEN {}
        ELSE UNION {Cl(Len(o.rows[f]) = n /\ \A r \in 1..Len(o.rows[f]) : o.rows[f][r] = RowOf(f, r - 1, WIDTH(f, k)), "values:" \o f) :
                    f \in {x \in Range(FIELDS) : x # "shN" \/ (k > 0 /\ Len(Shape(c, "shN")) = 3)}})  \* one row of coefficients per gaussian is in the order the file format has
\* the rows of the other scenes, and where there are none of this one there is no more to say
Joined(c, o) ==
  Cl(o.n = Rows(c), "rows") \cup Cl(o.whole, "torn") \cup Cl(\A f \in DOMAIN o.mates : Range(o.mates[f]) \subseteq {PARTNERVALUE}, "partner")
  \cup (IF Rows(c) = 0 THEN {} ELSE Stored(c, o))
Verdict(L) ==
  LET c == L.case e == c.e IN
  IF L.how = "refused"
  THEN Cl(~Must(c, e), "refused a scene:" \o e) \cup Cl(~L.touched, "touched:" \o e) \cup Cl(L.exc, "not an exception:" \o e)
  ELSE IF ~May(c, e) THEN {"accepted:" \o e}
  ELSE IF e \in ACT THEN {} ELSE IF e \in JOIN THEN {x \o ":" \o e : x \in Joined(c, L)} ELSE {x \o ":" \o e : x \in Stored(c, L)}
Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
