--------------------------- MODULE BulletinTrace ---------------------------
(* Recorded histories of bulletins. After each operation the driver shows     *)
(* the slots: [same |-> 1] when nothing has changed there since the last      *)
(* time, [same |-> 0, b |-> contents] (or none |-> 1). The contents of "load" *)
(* and "decode" are taken from the recording, but decoding the same bytes     *)
(* again, verbosely or not, must give the same. Answers to questions are      *)
(* recorded as digests; they depend only on the contents.                     *)
EXTENDS Bulletin, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.CASES)
Tabs == JsonDeserialize(IOEnv.TABLES)
NSlots == 2
NChunks == 8
VARIABLES k, n, sl, org, ans, msgs, st
vars == <<k, n, sl, org, ans, msgs, st>>
View == <<k, n>>

Case == Cases[k]
NoOrigin == [i \in 1..NSlots |-> <<>>]
Empty == [i \in 1..NSlots |-> None]
StartSt(j) == IF Cases[j].st = "ok" THEN "run" ELSE "bad"
Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ sl = Empty /\ org = NoOrigin /\ ans = <<>> /\ msgs = <<>> /\ st = StartSt(k)
Live == st = "run" /\ n < Len(Case.ops)

Content(x) == IF "none" \in DOMAIN x THEN None
              ELSE [kind |-> x.kind, h |-> x.h, opt |-> x.opt, desc |-> x.desc, outs |-> x.outs, tabs |-> x.tabs = 1]
Shows(o, i, b) == IF o.sl[i].same = 1 THEN sl[i] = b ELSE Content(o.sl[i].b) = b

\* bulletins remember where the sections of their message were
Asked(q) == <<q.op, sl[q.s], org[q.s]>>

\* the message decoded before: [st, b]
Key(q) == <<q.kind, q.l>>
Outcome(o) == IF o.r = "ok" THEN [r |-> "ok", b |-> Content(o.b)] ELSE [r |-> "err", b |-> None]

Step ==
  /\ Live
  /\ LET q == Case.ops[n + 1]
         o == Case.obs[n + 1]
     IN IF ~Can(sl, q) THEN st' = "skip" /\ UNCHANGED <<sl, org, ans, msgs>>
        ELSE
           IF q.op = "seen"
           THEN \* an answer about a message just decoded, from some other history
                /\ UNCHANGED <<sl, org, msgs>>
                /\ ans' = (<<q.q, q.kind, q.l>> :> o.ans) @@ ans
                /\ st' = IF <<q.q, q.kind, q.l>> \in DOMAIN ans /\ ans[<<q.q, q.kind, q.l>>] # o.ans THEN "bad" ELSE "run"
           ELSE IF q.op \in {"decode", "verbose"}
           THEN \* the same bytes always give the same
                LET x == Outcome(o) IN
                /\ msgs' = (Key(q) :> x) @@ msgs
                /\ sl' = IF q.op = "decode" THEN [sl EXCEPT ![q.s] = x.b] ELSE sl
                /\ org' = IF q.op = "decode" THEN [org EXCEPT ![q.s] = q.l] ELSE org
                /\ ans' = ans
                /\ st' = IF /\ \A i \in 1..NSlots : Shows(o, i, sl'[i])
                            /\ IF Key(q) \in DOMAIN msgs THEN msgs[Key(q)] = x ELSE TRUE
                         THEN "run" ELSE "bad"
           ELSE IF q.op = "load"
           THEN /\ sl' = [sl EXCEPT ![q.s] = Content(o.b)]
                /\ org' = [org EXCEPT ![q.s] = <<>>] /\ UNCHANGED <<ans, msgs>>
                /\ st' = IF \A i \in 1..NSlots : Shows(o, i, sl'[i]) THEN "run" ELSE "bad"
           ELSE IF q.op \in Questions
           THEN /\ UNCHANGED <<sl, org, msgs>>
                /\ ans' = (Asked(q) :> o.ans) @@ ans
                /\ st' = IF /\ \A i \in 1..NSlots : Shows(o, i, sl[i])
                            /\ IF Asked(q) \in DOMAIN ans THEN ans[Asked(q)] = o.ans ELSE TRUE
                         THEN "run" ELSE "bad"
           ELSE IF q.op = "diff"
           THEN /\ UNCHANGED <<sl, org, ans, msgs>>
                /\ st' = IF /\ \A i \in 1..NSlots : Shows(o, i, sl[i])
                            /\ o.r = "ok" /\ (o.n = 0) = SameBulletin(sl[q.s], sl[q.t])
                            /\ o.m = o.n      \* the other way round
                         THEN "run" ELSE "bad"
           ELSE LET x == Does(sl, Tabs[Case.tab], q) IN
                /\ sl' = x.sl /\ UNCHANGED <<ans, msgs>>
                /\ org' = IF q.op = "new" THEN [org EXCEPT ![q.s] = <<>>] ELSE org
                /\ st' = IF /\ o.r = x.r
                            \* how many elements have the attribute
                            /\ q.op = "map" => LET vs == Sub(x.sl[q.s], q.i) IN
                                 o.n = Cardinality({j \in 1..q.n : vs[Len(vs)].tx[j] = 43})
                            /\ \A i \in 1..NSlots : Shows(o, i, sl'[i]) THEN "run" ELSE "bad"
  /\ n' = n + 1 /\ k' = k
Judge == /\ ~Live /\ st # "done"
         /\ PrintT(<<IF st = "run" THEN "ACCEPT" ELSE IF st = "skip" THEN "SKIP" ELSE "REJECT", Case.id>>)
         /\ (st = "bad" /\ IOEnv.EXPLAIN = "1") => PrintT(<<"PRESCRIBED", [n |-> n, sl |-> sl]>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ sl' = Empty /\ org' = NoOrigin /\ ans' = <<>> /\ msgs' = <<>> /\ st' = StartSt(k')
            ELSE k' = k /\ n' = n + 1 /\ UNCHANGED <<sl, org, ans, msgs>> /\ st' = "done"
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
