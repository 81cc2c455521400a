--------------------------- MODULE DescribeTrace ---------------------------
(* Recorded descriptions: desc, ind, dec ("ok": messages with these           *)
(* descriptors have been decoded); obs [feat |-> [st, l], list |-> [st, l]]   *)
EXTENDS Describe, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Tabs == JsonDeserialize(IOEnv.TABLES)
NChunks == 8
VARIABLES k, st
vars == <<k, st>>
Case == Cases[k]
Set(l) == {l[i] : i \in 1..Len(l)}
\* descriptors that can be decoded can be described
Told(x, a, right) ==
  IF ~x.ok THEN a.st \in {"ok", "err"}
  ELSE IF a.st = "ok" THEN right ELSE a.st = "err" /\ (Case.dec # "ok" \/ x.open)
Right(x) ==
  /\ Case.st = "ok"
  /\ Told(x, Case.obs.feat, Set(Case.obs.feat.l) = x.fs)
  /\ Told(x, Case.obs.list, Case.obs.list.l = x.ls)
Init == k \in {j \in 1..NChunks : j <= Len(Cases)} /\ st = "run"
Step == /\ st = "run"
        /\ LET x == Walk(Tabs[Case.tab], Case.desc, Case.ind, Start)
               good == Right(x)
           IN /\ PrintT(<<IF good THEN "ACCEPT" ELSE "REJECT", Case.id>>)
              /\ (~good /\ IOEnv.EXPLAIN = "1") => PrintT(<<"PRESCRIBED", x>>)
        /\ IF k + NChunks <= Len(Cases) THEN k' = k + NChunks /\ st' = "run" ELSE k' = k /\ st' = "done"
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
