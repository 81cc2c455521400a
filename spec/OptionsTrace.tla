---------------------------- MODULE OptionsTrace ----------------------------
(* Recorded histories of threads: ops [t, op, o, v], where threads begin with *)
(* "start" (thread 0 is there already) and end with "end"; obs: after each    *)
(* step, what was seen [t, x] in every thread (all = 1), or in the thread     *)
(* that made the step (threads running freely)                                *)
EXTENDS Options, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.CASES)
NChunks == 8
VARIABLES k, n, th, st
vars == <<k, n, th, st>>
View == <<k, n>>

Case == Cases[k]
Begin == [i \in {0} |-> Fresh]
StartSt(j) == IF Cases[j].st = "ok" THEN "run" ELSE "bad"
Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ th = Begin /\ st = StartSt(k)
Live == st = "run" /\ n < Len(Case.ops)

After(q) == IF q.op = "start" THEN TLCEval([i \in DOMAIN th \cup {q.t} |-> IF i = q.t THEN Fresh ELSE th[i]])
            ELSE IF q.op = "end" THEN TLCEval([i \in DOMAIN th \ {q.t} |-> th[i]])
            ELSE TLCEval([th EXCEPT ![q.t] = Does(@, q)])
Step == /\ Live
        /\ LET q == Case.ops[n + 1]
               o == Case.obs[n + 1]
               want == IF Case.all = 1 THEN DOMAIN th' ELSE {q.t} \cap DOMAIN th'
           IN /\ Assert(IF q.op = "start" THEN TRUE ELSE q.t \in DOMAIN th /\ Can(th[q.t], q), <<"history applies", Case.id, n>>)
              /\ th' = After(q)
              /\ st' = IF /\ {o[i].t : i \in 1..Len(o)} = want
                          /\ \A i \in 1..Len(o) : o[i].x = Seen(th'[o[i].t])
                       THEN "run" ELSE "bad"
        /\ n' = n + 1 /\ k' = k
Judge == /\ ~Live /\ st # "done"
         /\ PrintT(<<IF st = "run" THEN "ACCEPT" ELSE "REJECT", Case.id>>)
         /\ (st # "run" /\ IOEnv.EXPLAIN = "1") => PrintT(<<"PRESCRIBED", [n |-> n, seen |-> [i \in DOMAIN th |-> Seen(th[i])]]>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ th' = Begin /\ st' = StartSt(k')
            ELSE k' = k /\ n' = n + 1 /\ th' = th /\ st' = "done"
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
