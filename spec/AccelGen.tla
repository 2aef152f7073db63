------------------------------ MODULE AccelGen ------------------------------
(* Histories.  A fault is at the n-th time (0: never) that, within one call, a kernel is handed to the compiler ("wrap") or a
   compiled kernel is run ("call": fails before, "late": after doing its work), once or from then on. *)
EXTENDS Accel, Json
EXC == {"RuntimeError", "ImportError", "OSError", "Backend", "Assertion", "KeyboardInterrupt"}
NoFault == [how |-> "none", at |-> 0, stick |-> FALSE, exc |-> "RuntimeError"]
Faults == {NoFault} \cup [how : {"wrap", "call", "late"}, at : 1..4, stick : BOOLEAN, exc : EXC]
Call(o, f) == [e |-> o[1], s |-> o[2], f |-> f]
Clean(o) == Call(o, NoFault)
Envs == {"ok", "nodynamo", "noattr", "nocc"}   \* no fault but the plan's; nothing to compile with: no torch._dynamo, no torch.compile, no C++ compiler
VARIABLES h
Emit(x) == PrintT("CASE " \o ToJson(x))
Seq1 == \E env \in Envs, o \in Ops, p \in {<<"save", "s1">>, <<"save", "s512">>, <<"load", "s257">>, <<"plywrite_gpu", "s257">>}, f \in Faults :
           /\ (env # "ok" => f = NoFault) /\ (env = "nocc" => o[1] = "plywrite_gpu" /\ o[2] \in {"s1", "s257", "badsh0"} /\ p = <<"save", "s512">>) /\ (o[1] \in Readers => f.how = "none")
           /\ h' = [mode |-> "seq", env |-> env, ops |-> <<Call(o, f), Clean(p), Clean(o)>>]
\* two calls of two threads, the first interrupted by the second at every line of the codec
Par == \E o \in Ops, p \in Ops, f \in Faults, g \in Faults, pre \in {<<>>, <<Clean(<<"save", "s257">>)>>} :
           /\ o[1] \in Writers /\ o[2] \in Good \cup {"badq"} /\ p[2] \in Good /\ o[1] = "save"
           /\ f.how \in {"none", "call"} /\ g.how \in {"none", "wrap", "call"} /\ f.exc = "RuntimeError" /\ g.exc \in {"RuntimeError", "KeyboardInterrupt"}
           /\ f.at \in {0, 1, 4} /\ g.at \in {0, 1, 2} /\ ~f.stick /\ ~g.stick /\ (p[1] \in Readers => g = NoFault)
           /\ h' = [mode |-> "par", env |-> "ok", ops |-> pre \o <<Call(o, f), Call(p, g)>>]
Init == h = [mode |-> "start", ops |-> <<>>]
Next == h.mode = "start" /\ Seq1 /\ Emit(h')
Spec == Init /\ [][Next]_h
PNext == h.mode = "start" /\ Par /\ Emit(h')
PSpec == Init /\ [][PNext]_h

\* longer histories, as random walks
WInit == h = [mode |-> "seq", env |-> "ok", ops |-> <<>>]
WNext == /\ Len(h.ops) < 6
         /\ \E o \in {x \in Ops : x[1] # "save_compressed"}, f \in Faults :
              /\ (o[1] \in Readers => f = NoFault) /\ (f.exc \in {"RuntimeError", "KeyboardInterrupt"})
              /\ h' = [h EXCEPT !.ops = Append(@, Call(o, f))]
         /\ (Len(h'.ops) = 6 => Emit(h'))
WSpec == WInit /\ [][WNext]_h
=============================================================================
