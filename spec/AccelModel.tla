----------------------------- MODULE AccelModel -----------------------------
(* The mechanism: a table of compiled kernels shared by all threads, filled on demand, emptied and switched off when a
   compiled kernel fails.  Every step is what one thread does without the others seeing a state between.
   ATOMICGET = FALSE is the table as it was looked up before its repair: tested for the entry first, fetched afterwards. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS THREADS, KERNELS, CALLS, ATOMICGET
VARIABLES table,    \* kernel -> "none" | "compiled" | "plain"
          off,      \* acceleration switched off
          pc, k, got, left, answers
vars == <<table, off, pc, k, got, left, answers>>
Init == /\ table = [x \in 1..KERNELS |-> "none"] /\ off = FALSE
        /\ pc = [t \in THREADS |-> "idle"] /\ k = [t \in THREADS |-> 1]
        /\ got = [t \in THREADS |-> [x \in 1..KERNELS |-> "none"]]
        /\ left = [t \in THREADS |-> CALLS] /\ answers = [t \in THREADS |-> <<>>]
Set(f, t, v) == [f EXCEPT ![t] = v]
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ pc' = Set(pc, t, "ask") /\ k' = Set(k, t, 1) /\ left' = Set(left, t, left[t] - 1)
            /\ UNCHANGED <<table, off, got, answers>>
\* fetching kernel k
Hand(t, v) == /\ got' = [got EXCEPT ![t][k[t]] = v]
              /\ IF k[t] < KERNELS THEN pc' = Set(pc, t, "ask") /\ k' = Set(k, t, k[t] + 1)
                                   ELSE pc' = Set(pc, t, "run") /\ k' = Set(k, t, 1)
Ask(t) == /\ pc[t] = "ask"
          /\ IF off THEN Hand(t, "plain") /\ UNCHANGED <<table, off, left, answers>>
             ELSE IF table[k[t]] = "none" THEN pc' = Set(pc, t, "make") /\ UNCHANGED <<table, off, k, got, left, answers>>
             ELSE IF ATOMICGET THEN Hand(t, table[k[t]]) /\ UNCHANGED <<table, off, left, answers>>
             ELSE pc' = Set(pc, t, "fetch") /\ UNCHANGED <<table, off, k, got, left, answers>>
Make(t) == /\ pc[t] = "make"
           /\ \E v \in {"compiled", "plain"} :      \* the compiler works, or fails at once
                /\ table' = [table EXCEPT ![k[t]] = v]
                /\ IF ATOMICGET THEN Hand(t, v) ELSE pc' = Set(pc, t, "fetch") /\ UNCHANGED <<k, got>>
           /\ UNCHANGED <<off, left, answers>>
Fetch(t) == /\ pc[t] = "fetch"
            /\ IF table[k[t]] = "none" THEN pc' = Set(pc, t, "idle") /\ answers' = [answers EXCEPT ![t] = Append(@, "lost")]
                                            /\ UNCHANGED <<k, got>>
               ELSE Hand(t, table[k[t]]) /\ UNCHANGED answers
            /\ UNCHANGED <<table, off, left>>
\* running kernel k
Done(t) == IF k[t] < KERNELS THEN k' = Set(k, t, k[t] + 1) /\ UNCHANGED <<pc, answers>>
           ELSE pc' = Set(pc, t, "idle") /\ answers' = [answers EXCEPT ![t] = Append(@, "right")] /\ UNCHANGED k
Run(t) == /\ pc[t] = "run"
          /\ \/ Done(t) /\ UNCHANGED <<table, off>>                                    \* plain, or compiled and working
             \/ /\ ~off /\ got[t][k[t]] = "compiled"                                    \* compiled and failing: plain after all
                /\ off' = TRUE /\ table' = [x \in 1..KERNELS |-> "none"] /\ Done(t)
             \/ /\ pc' = Set(pc, t, "idle") /\ UNCHANGED <<table, off, k>>             \* the user interrupts
                /\ answers' = [answers EXCEPT ![t] = Append(@, "interrupted")]
          /\ UNCHANGED <<got, left>>
Next == \E t \in THREADS : Start(t) \/ Ask(t) \/ Make(t) \/ Fetch(t) \/ Run(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Answered == \A t \in THREADS : \A j \in 1..Len(answers[t]) : answers[t][j] \in {"right", "interrupted"}
OffStaysOff == [][off => off']_vars
AllEnd == <>(\A t \in THREADS : left[t] = 0 /\ pc[t] = "idle")
=============================================================================
