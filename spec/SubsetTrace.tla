---------------------------- MODULE SubsetTrace -----------------------------
(* Validates recorded histories of subsets: as VarTrace, with subsets        *)
EXTENDS Subset, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NChunks == 8
NVars == 2
NSubsets == 3

VARIABLES k, n, x, bad
vars == <<k, n, x, bad>>
View == <<k, n>>

Empty == [v |-> [i \in 1..NVars |-> None], u |-> [i \in 1..NSubsets |-> NoSubset]]
Ops == Cases[k].ops
Obs == Cases[k].obs
Seen(o) == [v |-> o.v, u |-> o.u]

Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ x = Empty /\ bad = FALSE

Cls(r) == [r EXCEPT !.cls = IF r.st = "err" /\ r.cls # "domain" THEN "other" ELSE r.cls]

Step == /\ n >= 0 /\ n < Len(Ops) /\ ~bad /\ Cases[k].st = "ok"
        /\ Assert(Applies2(x, Ops[n + 1]), <<"history applies", Cases[k].id, n>>)
        /\ bad' = \/ [x |-> Seen(Obs[n + 1]), r |-> Cls(Obs[n + 1].r)] \notin Outcomes2(x, Ops[n + 1])
                  \/ ~SoundState(Seen(Obs[n + 1]))
        /\ x' = Seen(Obs[n + 1])
        /\ n' = n + 1 /\ k' = k
        /\ bad' /\ IOEnv.EXPLAIN = "1" => PrintT(<<"PRESCRIBED", [step |-> n + 1, op |-> Ops[n + 1], before |-> x, allowed |-> Outcomes2(x, Ops[n + 1])]>>)

Over == n = Len(Ops) \/ bad \/ Cases[k].st # "ok"
Judge == /\ Over /\ n >= 0
         /\ PrintT(<<IF bad \/ Cases[k].st # "ok" THEN "REJECT" ELSE "ACCEPT", Cases[k].id>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ x' = Empty /\ bad' = FALSE
            ELSE k' = k /\ n' = -1 /\ UNCHANGED <<x, bad>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
