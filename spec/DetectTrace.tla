---------------------------- MODULE DetectTrace ----------------------------
EXTENDS Detect, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, done
Cl(b, name) == IF b THEN {} ELSE {name}

(* one answer: e entry, w whether arrays or tensors, preset, sh0, d, out = <<scales, opacities, sh0, order>> or <<error class>> *)
MadeBad(c, a) ==
  IF a.preset \notin Presets THEN Cl(a.out = <<"ValueError">>, "unknown:" \o a.e)
  ELSE LET want == Label(a.preset, a.sh0, a.d, c) IN
       IF Len(a.out) # 4 THEN {"raised:" \o a.e \o ":" \o a.out[1]}
       ELSE Cl(a.out[1] = want[1], "scales:" \o a.e \o ":" \o a.preset) \cup Cl(a.out[2] = want[2], "opacities:" \o a.e \o ":" \o a.preset)
            \cup Cl(a.out[3] = want[3], "sh0:" \o a.e \o ":" \o a.preset) \cup Cl(a.out[4] = want[4], "order:" \o a.e \o ":" \o a.preset)
            \cup Cl(a.same, "data:" \o a.e)
(* writers of loose arrays: the stream equals the one of the container that carries the label of the profile *)
WroteBad(c, x) ==
  LET v == Auto(c) want == x.by[v[1]][v[2]] IN Cl(x.tok = want, "written:" \o x.e)

Verdict(L) == UNION {MadeBad(L.case, L.made[j]) : j \in 1..Len(L.made)} \cup UNION {WroteBad(L.case, L.wrote[j]) : j \in 1..Len(L.wrote)}
              \cup Cl(L.profile = <<L.case.neg, L.case.mag, L.case.inr>>, "driver")

Init == tr \in 1..Len(Log) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET b == Verdict(Log[tr]) IN (b # {} => PrintT("BAD " \o ToString(tr) \o " 0 " \o ToString(b)))
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================
