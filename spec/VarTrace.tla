------------------------------ MODULE VarTrace ------------------------------
(* Validates recorded histories of variables. A case is a history:           *)
(*   ops: the operations; obs: for each one the slots and the result seen;   *)
(*   st: "ok", or "crash" when the run did not survive the history           *)
EXTENDS Var, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NChunks == 8
Slots == 4

VARIABLES k, n, s, bad
vars == <<k, n, s, bad>>
View == <<k, n>>

Empty == [i \in 1..Slots |-> None]
Ops == Cases[k].ops
Obs == Cases[k].obs

Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ s = Empty /\ bad = FALSE

\* error classes other than domain errors are not prescribed
Cls(r) == [r EXCEPT !.cls = IF r.st = "err" /\ r.cls # "domain" THEN "other" ELSE r.cls]

Step == /\ n >= 0 /\ n < Len(Ops) /\ ~bad /\ Cases[k].st = "ok"
        /\ Assert(Applies(s, Ops[n + 1]), <<"history applies", Cases[k].id, n>>)
        /\ bad' = \/ [s |-> Obs[n + 1].s, r |-> Cls(Obs[n + 1].r)] \notin Outcomes(s, Ops[n + 1])
                  \/ \E i \in 1..Slots : ~Sound(Obs[n + 1].s[i])
        /\ s' = Obs[n + 1].s
        /\ n' = n + 1 /\ k' = k
        /\ bad' /\ IOEnv.EXPLAIN = "1" => PrintT(<<"PRESCRIBED", [step |-> n + 1, op |-> Ops[n + 1], before |-> s, allowed |-> Outcomes(s, Ops[n + 1])]>>)

Over == n = Len(Ops) \/ bad \/ Cases[k].st # "ok"
Judge == /\ Over /\ n >= 0
         /\ PrintT(<<IF bad \/ Cases[k].st # "ok" THEN "REJECT" ELSE "ACCEPT", Cases[k].id>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ s' = Empty /\ bad' = FALSE
            ELSE k' = k /\ n' = -1 /\ UNCHANGED <<s, bad>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
