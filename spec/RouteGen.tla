------------------------------ MODULE RouteGen ------------------------------
EXTENDS Route, Json
CONSTANT DEPTH
N(d, st, sf) == [dir |-> d, stem |-> st, sfx |-> sf]
NAMES == {N("", "a", s) : s \in {<<>>, <<".ply">>, <<".compressed", ".ply">>, <<".ply_compressed">>, <<".PLY">>, <<".v1", ".ply">>,
             <<".ply", ".ply">>, <<".compressed">>, <<".compressed", ".PLY">>, <<".ply", ".compressed">>, <<".compressed", ".v2", ".ply">>,
             <<".ply_compressed", ".ply">>, <<".tar", ".gz">>, <<".compressed", ".compressed", ".ply">>, <<".sog">>, <<".ply", ".gz">>,
             <<".compressed", ".ply", ".ply">>, <<".v1", ".ply_compressed">>, <<".txt">>}}
         \cup {N("", "", s) : s \in {<<".ply">>, <<".compressed", ".ply">>, <<".ply_compressed">>, <<".ply", ".ply">>}}
         \cup {N("", st, <<".ply">>) : st \in {"compressed", "a b", "ply_compressed", "acompressed", "a-compressed"}}
         \cup {N(d, "a", s) : d \in {"d.ply", "x.compressed", "missing"}, s \in {<<>>, <<".ply">>, <<".compressed", ".ply">>, <<".v1">>}}
CUTS == {"0", "1", "head-", "head", "mid", "some", "last"}
KINDS == {"str", "Path", "relative", "pathlike"}
Op(e, n, c, s, k, pk) == [e |-> e, nm |-> n, comp |-> c, sc |-> s, cut |-> k, pk |-> pk]

VARIABLES ops, fs, pool
vars == <<ops, fs, pool>>
None == [p \in {} |-> [sc |-> 0, c |-> FALSE]]
Init == ops = <<>> /\ fs = None /\ pool = <<>>
Do(op) == ops' = Append(ops, op) /\ fs' = After(fs, op) /\ pool' = pool
(* every entry point, name and choice on its own, and its failure over an existing file *)
Next ==
  \/ /\ ops = <<>>
     /\ \E e \in ENTRIES, n \in NAMES, c \in BOOLEAN, s \in {1, 2} :
          /\ (c => e \in ROUTED \cup {"missing_arrays", "bad_shape"})
          /\ Do(Op(e, n, c, s, "none", IF s = 1 THEN "str" ELSE "Path"))
          /\ PrintT("CASE " \o ToJson([ops |-> ops']))
  \/ /\ Len(ops) = 1 /\ ops[1].sc = 2 /\ ~Fails(ops[1]) /\ ops[1].nm \in {N("", "a", <<".ply">>), N("", "a", <<".compressed", ".ply">>), N("d.ply", "a", <<".v1">>)}
     /\ \E e \in ENTRIES \ REFUSED, c \in BOOLEAN, s \in 1..3, k \in CUTS \cup {"none"} :
          /\ (c => e \in ROUTED \cup BROKEN) /\ (e \in BROKEN => k = "none")
          /\ Do(Op(e, ops[1].nm, c, s, k, "Path"))
          /\ PrintT("CASE " \o ToJson([ops |-> ops']))
Spec == Init /\ [][Next]_vars

(* random histories over three names *)
R(S) == {RandomElement(S)}
WalkInit == ops = <<>> /\ fs = None /\ pool = [i \in 1..3 |-> RandomElement(NAMES)]
Pick == \E i \in 1..3 : TRUE
Walk == /\ Len(ops) < DEPTH
        /\ \E i \in R(1..3), e \in R(ENTRIES), c \in R(BOOLEAN), s \in R(1..3), k \in R({"none", "x"}), k2 \in R(CUTS), pk \in R(KINDS) :
             Do(Op(e, IF Len(pool) = 0 THEN N("", "a", <<>>) ELSE pool[i], c /\ e \in ROUTED \cup {"missing_arrays", "bad_shape"}, s,
                   IF k = "x" /\ e \notin REFUSED \cup BROKEN THEN k2 ELSE "none", pk))
WalkNext == \/ (pool = <<>> /\ ops' = ops /\ fs' = fs /\ pool' \in {[i \in 1..3 |-> RandomElement(NAMES)]})
            \/ (pool # <<>> /\ Walk)
WalkSpec == Init /\ [][WalkNext]_vars
EmitWalk == Len(ops) = DEPTH => PrintT("CASE " \o ToJson([ops |-> ops]))

(* design: a save touches one path only; the format follows the name and the choice *)
OneFile == ops # <<>> => Cardinality(DOMAIN fs) <= Len(ops)
NamesTell == \A n \in NAMES : /\ NamedCompressed(n) => \A c \in BOOLEAN : Routed(n, c).c /\ Routed(n, c).to = PathOf(n)
                              /\ Routed(n, FALSE).to = PathOf(n) /\ Routed(n, TRUE).c
                              /\ ~NamedCompressed(n) => Routed(n, TRUE).to # PathOf(n)
=============================================================================
