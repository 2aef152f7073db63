-------------------------- MODULE ContainerTrace ---------------------------
(***************************************************************************)
(* Trace validation: every recorded step of the real containers is compared *)
(* with Expected.  One line of the log is one history                       *)
(*   [steps |-> Seq([op, err, ret, ch, out])]                               *)
(* ch lists the containers that are new or differ from the previous step,   *)
(* as observed through the public interface.  The verdict of a step is the  *)
(* set of clauses that do not hold (empty = conforms); the state is then    *)
(* re-synchronised with the observation so that one defect is reported once.*)
(***************************************************************************)
EXTENDS Container, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, i, st
view == <<tr, i>>

Put(s, ch) ==  \* observed containers after the step; ids are dense
  LET ids == {ch[x][1] : x \in 1..Len(ch)}
      top == IF ids = {} THEN Len(s) ELSE Max2(Len(s), CHOOSE m \in ids : \A y \in ids : y <= m)
  IN [id \in 1..top |->
        IF id \in ids THEN ch[CHOOSE x \in 1..Len(ch) : ch[x][1] = id][2] ELSE s[id]]

Cl(b, name) == IF b THEN {} ELSE {name}

VOk(f, e, p) == Len(e) = Len(p) /\ \A j \in 1..Len(e) : Match(f, e[j], p[j])

CmpObj(e, p) ==
  Cl(p.k = e.k, "kind")
  \cup Cl(e.dt = "any" \/ p.dt = e.dt, "dtype")
  \cup Cl(p.n = e.n, "n")
  \cup Cl(p.d = e.d, "d")
  \cup Cl(p.dl = e.dl, "dl")
  \cup Cl(p.lab[1] = e.lab[1], "lab:sc") \cup Cl(p.lab[2] = e.lab[2], "lab:op")
  \cup Cl(p.lab[3] = e.lab[3], "lab:s0")
  \cup UNION {Cl(VOk(f, e.v[f], p.v[f]), "v:" \o f) : f \in VF}
  \cup (IF e.L = -2
        THEN Cl(p.L = -1 \/ (p.L = 1 /\ p.v.mk = [j \in 1..p.n |-> 1]), "mk") \cup Cl(~p.hn, "names")
        ELSE Cl(p.L = e.L /\ p.v.mk = e.v.mk, "mk") \cup Cl(p.hn = e.hn /\ p.nm = e.nm, "names"))

Addrs(p, f) == {p.a[f][j] : j \in 1..Len(p.a[f])}
ShareBad(E, res, pre, o) ==
  CASE E.sh = "must" ->
         {"share:" \o f : f \in {g \in AF : pre[o].a[g] # <<>> /\
            ~(Len(res.a[g]) = Len(E.ix) /\ \A j \in 1..Len(E.ix) : res.a[g][j] = pre[o].a[g][E.ix[j]])}}
    [] E.sh = "no" ->
         LET used == UNION {UNION {Addrs(pre[q], g) : g \in AF} : q \in 1..Len(pre)}
         IN {"indep:" \o f : f \in {g \in AF : Addrs(res, g) \cap used # {}}}
    [] OTHER -> {}

(* containers other than the target and the result: nothing may differ except cells that are
   the same memory as a cell of the (updated) target *)
CellsOk(p, q, t, f) ==
  /\ Len(p.v[f]) = Len(q.v[f])
  /\ \A j \in 1..Len(p.v[f]) :
       \/ p.v[f][j] = q.v[f][j]
       \/ \E l \in 1..Len(t.a[f]) : t.a[f][l] = q.a[f][j] /\ t.v[f][l] = q.v[f][j]
FrameBad(p, q, t) ==
  UNION {Cl(CellsOk(p, q, t, f), "frame:" \o f) : f \in AF}
  \cup Cl(p.n = q.n /\ p.k = q.k /\ p.dt = q.dt /\ p.d = q.d, "frame:shape")
  \cup Cl(p.lab = q.lab /\ p.dl = q.dl, "frame:lab")
  \cup Cl(p.L = q.L /\ p.hn = q.hn /\ p.nm = q.nm, "frame:names")
  \cup Cl(p.a = q.a, "frame:moved")

OutRowOk(e, p) == \A f \in AF : Len(e[f]) = Len(p[f]) /\
  (e[f] # <<>> => IF f = "mk" THEN e[f] = p[f] ELSE Match(f, e[f][1], p[f][1]))
OutOk(op, e, p) ==
  CASE op \in {"int", "iter"} -> Len(e) = Len(p) /\ \A j \in 1..Len(e) : OutRowOk(e[j], p[j])
    [] op \in {"todict", "unpack"} -> \A f \in VF : VOk(f, e[f], p[f])
    [] OTHER -> e = p

Tgt(op) == IF op.op \in {"new", "sum", "concat"} THEN 0 ELSE op.o
DummyTarget == [a |-> [f \in AF |-> <<>>], v |-> [f \in AF |-> <<>>]]

Bad0(step, pre, post) ==
  LET op == step.op
      E == Expected(op, pre)
      o == Tgt(op)
      chids == {step.ch[x][1] : x \in 1..Len(step.ch)}
      upd == step.err = "" /\ E.upd # <<>>
      tgt == IF upd THEN post[o] ELSE DummyTarget
      resId == IF step.err = "" /\ step.ret > 0 THEN step.ret ELSE 0
      frame == UNION {FrameBad(pre[p], post[p], tgt) :
                 p \in {q \in chids : q <= Len(pre) /\ ~(upd /\ q = o)}}
      extra == Cl(\A q \in chids : q <= Len(pre) \/ q = resId, "extra")
  IN frame \cup extra \cup
     (IF step.err # ""
      THEN (IF E.err = "no" THEN {"raised"}
            ELSE Cl(step.err \in E.errs \/ "*" \in E.errs, "wrongerr"))
      ELSE IF E.err = "must" THEN {"notrefused"}
      ELSE (IF E.upd # <<>> THEN CmpObj(E.upd[1], post[o]) \cup Cl(step.ret \in {0, o}, "ret") ELSE {})
           \cup (IF E.new # <<>>
                 THEN IF resId = 0 THEN {"noresult"}
                      ELSE IF resId <= Len(pre)
                      THEN Cl(E.self, "isself") \cup CmpObj(E.new[1], post[resId])
                      ELSE CmpObj(E.new[1], post[resId]) \cup ShareBad(E, post[resId], pre, o)
                 ELSE {})
           \cup (IF E.out # <<>>
                 THEN Cl(OutOk(op.op, E.out[1], step.out), "out") ELSE {}))

Init == tr \in 1..Len(Traces) /\ i = 0 /\ st = <<>>
Next ==
  /\ i < Len(Traces[tr].steps)
  /\ LET step == Traces[tr].steps[i + 1]
         post == Put(st, step.ch)
         b == Bad0(step, st, post)
     IN /\ st' = IF step.drop = 1 THEN SubSeq(post, 1, Len(st)) ELSE post
        /\ (b # {} => PrintT("BAD " \o ToString(tr) \o " " \o ToString(i + 1) \o " " \o ToString(b)))
  /\ i' = i + 1 /\ tr' = tr
Spec == Init /\ [][Next]_<<tr, i, st>>
=============================================================================
