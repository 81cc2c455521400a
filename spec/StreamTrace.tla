---------------------------- MODULE StreamTrace ----------------------------
(* Recorded histories of writing to and reading from a stream: ops is the    *)
(* list of operations [op, d, st, off, m]; one step each. raw, wb, wc add to *)
(* the stream, rb and rc read from it; a history stops at the first error.   *)
EXTENDS Stream, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NChunks == 8
VARIABLES k, n, data, p, st
vars == <<k, n, data, p, st>>
View == <<k, n>>

Ops == Cases[k].ops
Live == st = "run" /\ n < Len(Ops)
Cur == Ops[n + 1]

Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ data = <<>> /\ p = 1
        /\ st = IF Cases[k].st = "ok" THEN "run" ELSE "bad"

Write == /\ Live /\ Cur.op \in {"raw", "wb", "wc"}
         /\ data' = data \o Written(Cur.op, Cur.d)
         /\ st' = IF Cur.st = "ok" THEN "run" ELSE "bad"
         /\ n' = n + 1 /\ UNCHANGED <<k, p>>

ReadNext == /\ Live /\ Cur.op \in {"rb", "rc"}
            /\ LET r == Read(Cur.op, data, p) IN
               /\ st' = IF r.st # Cur.st THEN "bad"
                        ELSE IF r.st = "err" THEN "over"
                        ELSE IF r.st = "ok" /\ (Cur.off # r.off \/ Cur.m # r.d) THEN "bad" ELSE "run"
               /\ p' = IF r.st = "err" THEN p ELSE r.next
            /\ n' = n + 1 /\ UNCHANGED <<k, data>>

Judge == /\ ~Live /\ st # "done"
         /\ PrintT(<<IF st \in {"run", "over"} THEN "ACCEPT" ELSE "REJECT", Cases[k].id>>)
         /\ (st = "bad" /\ IOEnv.EXPLAIN = "1") => PrintT(<<"PRESCRIBED", [n |-> n, p |-> p, now |-> IF n > 0 /\ Ops[n].op \in {"rb", "rc"} THEN Read(Ops[n].op, data, p) ELSE [st |-> "ok"]]>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ data' = <<>> /\ p' = 1 /\ st' = IF Cases[k'].st = "ok" THEN "run" ELSE "bad"
            ELSE k' = k /\ n' = n + 1 /\ data' = <<>> /\ p' = 1 /\ st' = "done"

Next == Write \/ ReadNext \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
