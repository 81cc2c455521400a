----------------------------- MODULE CrexTrace -----------------------------
(* Validates recorded runs of the CREX decoder and encoder. Cases:           *)
(*   op "dec": d, tab; obs [st, (h, cd, desc, outs)]                         *)
(*   op "hdr": d, tab; obs as above without outs (header-only decoding)      *)
(*   op "enc": h, cd, desc, outs, tab; obs [st, d]                           *)
(*   op "val": as dec; obs [st, val, n, cut]: what the validator makes of    *)
(*             the n variables decoded in the last subset (val), and of all  *)
(*             but the last of them (cut)                                    *)
(*   op "rt":  as enc; obs as dec, from decoding what was encoded            *)
EXTENDS Crex, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Tabs == JsonDeserialize(IOEnv.TABLES)
NChunks == 8

VARIABLES k, n, s
vars == <<k, n, s>>
View == <<k, n>>

TabOf(c) == Tabs[c.tab]
Done(st) == [st |-> st]
MaxSteps == 8000

\* tables are found for master table 0 only, the one that is installed
HasTables(h) == h.mt = 0

Begin(c) ==
  CASE c.op \in {"dec", "hdr", "val"} ->
         LET hd == ParseHeader(c.d) IN
         IF ~hd.ok THEN Done("err") ELSE IF hd.wild THEN Done("any")
         ELSE IF ~HasTables(hd.h) THEN Done("err")
         ELSE IF c.op = "hdr" THEN Done("ok")
         ELSE DecodeMachine(c.d, hd, TabOf(c))
    [] c.op = "enc" -> EncodeMachine(c.obs.d, c.h, TabOf(c), c.desc, c.cd = 1, c.outs)
    \* what the encoding machine expects to get back; the text has been judged already
    [] c.op = "rt" -> EncodeMachine(<<>>, c.h, TabOf(c), c.desc, c.cd = 1, c.outs)

SameHeader(hd, o) == o.h = hd.h /\ o.desc = hd.desc /\ (o.cd = 1) = hd.cd

Verdict(c, x) ==
  IF x.st = "any" THEN c.obs.st \in {"ok", "err"}
  ELSE IF x.st = "err" THEN c.obs.st = "err"
  ELSE /\ x.st = "ok" /\ c.obs.st = "ok"
       /\ CASE c.op = "dec" -> SameHeader(ParseHeader(c.d), c.obs) /\ c.obs.outs = x.outs
            [] c.op = "val" -> /\ c.obs.val = "ok" /\ c.obs.n = Len(x.outs[Len(x.outs)])
                               /\ c.obs.n > 0 => c.obs.cut = "err"
            [] c.op = "hdr" -> SameHeader(ParseHeader(c.d), c.obs)
            [] c.op = "enc" -> TRUE
            [] c.op = "rt" -> /\ c.obs.h = StoredHeader(c.h) /\ c.obs.cd = c.cd
                              /\ c.obs.desc = Listed(c.desc)
                              /\ c.obs.outs = x.back

Brief(x) == IF "stack" \notin DOMAIN x THEN x
            ELSE [st |-> x.st, p |-> x.p, sub |-> x.sub, vi |-> x.vi, exp |-> x.exp, stack |-> x.stack,
                  outs |-> IF x.mode = "dec" THEN x.outs ELSE x.back]

Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0
        /\ s = Begin(Cases[k])

Live == s.st = "run" /\ n < MaxSteps
StepTo(x) == s' = x /\ n' = n + 1 /\ k' = k

ReadOrWriteElement == Live /\ IsElement(s) /\ StepTo(Element(s))
ReplicateGroup == Live /\ IsReplication(s) /\ StepTo(Replication(s))
ApplyOperator == Live /\ IsOperator(s) /\ StepTo(Operator(s))
ExpandSequence == Live /\ IsSequence(s) /\ StepTo(Sequence(s))
ReturnFromGroup == Live /\ IsReturn(s) /\ StepTo(Return(s))
FinishSubset == Live /\ IsEndSubset(s) /\ StepTo(EndSubset(s))

Judge == /\ ~Live /\ s.st # "done"
         /\ IF s.st = "run" /\ Cases[k].obs.st # "crash" THEN PrintT(<<"SKIP", Cases[k].id>>)
            ELSE IF Cases[k].obs.st # "crash" /\ Verdict(Cases[k], s) THEN PrintT(<<"ACCEPT", Cases[k].id>>)
            ELSE /\ PrintT(<<"REJECT", Cases[k].id>>)
                 /\ IOEnv.EXPLAIN = "1" => PrintT(<<"PRESCRIBED", Brief(s)>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ s' = Begin(Cases[k']) /\ n' = 0
            ELSE k' = k /\ s' = Done("done") /\ n' = n + 1

Next == ReadOrWriteElement \/ ReplicateGroup \/ ApplyOperator \/ ExpandSequence \/ ReturnFromGroup \/ FinishSubset \/ Judge
Spec == Init /\ [][Next]_vars

\* never read outside the message
InBounds == ("stack" \in DOMAIN s /\ s.mode = "dec") => s.p <= Len(s.d) + 1
=============================================================================
