--------------------------- MODULE VarcodesTrace ---------------------------
(* Recorded formatting, parsing and list operations                           *)
EXTENDS Varcodes, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NChunks == 8
VARIABLES k, n, l, st
vars == <<k, n, l, st>>
View == <<k, n>>

Case == Cases[k]
Start(j) == IF Cases[j].kind = "list" THEN Cases[j].l ELSE <<>>
StartSt(j) == IF Cases[j].st = "ok" THEN "run" ELSE "bad"
Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ l = Start(k) /\ st = StartSt(k)
Live == st = "run" /\ n < Len(Case.obs)

Right(q, o) ==
  CASE Case.kind = "code" ->   \* a code: its text, and both spellings parsed
         LET c == Case.c + n IN /\ o.f = Format(c) /\ o.p = c /\ o.q = c /\ o.v = c
                                /\ o.x = <<F(c), X(c), Y(c)>>
    [] Case.kind = "text" ->
         LET p == Parse(q) IN IF p.st = "any" THEN o.st = "ok" /\ F(o.n) = p.n
                              ELSE o.st = p.st /\ (p.st = "ok" => o.n = p.n)
    [] Case.kind = "type" -> IF q \in {Types[i] : i \in 1..4} THEN o.st = "ok" /\ o.t = q ELSE o.st = "err"
    [] Case.kind = "list" ->
         LET x == Does(l, q) IN o.st = x.st /\ o.l = x.l /\ (x.st = "ok" => o.n = x.n /\ o.r = x.r)
                                /\ o.p = IF x.l = <<>> THEN <<40, 101, 109, 112, 116, 121, 41>> ELSE Printed(x.l)
Step == /\ Live
        /\ LET q == Case.ops[n + 1]
               o == Case.obs[n + 1]
           IN /\ st' = IF Right(q, o) THEN "run" ELSE "bad"
              /\ l' = IF Case.kind = "list" THEN Does(l, q).l ELSE l
        /\ n' = n + 1 /\ k' = k
Judge == /\ ~Live /\ st # "done"
         /\ PrintT(<<IF st = "run" THEN "ACCEPT" ELSE "REJECT", Case.id>>)
         /\ (st = "bad" /\ IOEnv.EXPLAIN = "1") => PrintT(<<"PRESCRIBED", [n |-> n, l |-> l]>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ l' = Start(k') /\ st' = StartSt(k')
            ELSE k' = k /\ n' = n + 1 /\ l' = l /\ st' = "done"
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
