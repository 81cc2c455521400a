----------------------------- MODULE BufrTrace -----------------------------
(* Validates recorded runs of the real decoder and encoder against the       *)
(* specification. Each case is one message; its run is one behaviour, one    *)
(* descriptor per step. Cases:                                               *)
(*   op "dec": d, tab, undef; obs [st, (ed, h, opt, comp, desc, sec, outs)]  *)
(*   op "hdr": d; obs as above without outs (header-only decoding)           *)
(*   op "enc": ed, h, opt, desc, outs, tab; obs [st, d]                      *)
(*   op "val": as enc; obs [st, at, enc]: validating each subset (at: the    *)
(*             first one refused), then encoding                             *)
(*   op "rt":  as enc; obs as dec, from decoding what was encoded            *)
EXTENDS BufrMessage, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Tabs == JsonDeserialize(IOEnv.TABLES)
NChunks == 8

VARIABLES k, n, s
vars == <<k, n, s>>
View == <<k, n>>

TabOf(c) == Tabs[c.tab]

Done(st) == [st |-> st]

\* runs longer than this are not judged (and counted as such), except that they must not crash
MaxSteps == 8000
MaxSubsets == 600

\* what the header part of a successful decoding must show
SameHeader(hd, o) ==
  /\ o.ed = hd.ed /\ o.h = hd.h /\ o.opt = hd.opt /\ o.desc = hd.desc
  /\ (o.comp = 1) = hd.comp

\* the only table installed serves its own master table version and older ones
HasTables(c, h) == c.tab # "none" /\ h.mt = 0 /\ h.mtv <= TabOf(c).mtv

Begin(c) ==
  CASE c.op = "dec" ->
         LET hd == ParseHeader(c.d) IN
         IF ~hd.ok THEN Done("err") ELSE IF ~HasTables(c, hd.h) THEN Done("err")
         ELSE IF hd.nsub = 0 THEN Done("err")
         ELSE IF hd.nsub > MaxSubsets THEN Done("long")
         ELSE DecodeMachine(c.d, hd, TabOf(c), c.undef = 1)
    [] c.op = "hdr" ->
         LET hd == ParseHeader(c.d) IN IF ~hd.ok THEN Done("err") ELSE IF ~HasTables(c, hd.h) THEN Done("err") ELSE Done("ok")
    [] c.op = "rt" -> Done("ok")
    [] c.op = "val" -> Machine("val", <<>>, 0, 0, TabOf(c), c.desc, Len(c.outs), FALSE, FALSE, c.outs)
    [] c.op = "enc" ->
         IF c.ed \notin {2, 3, 4} \/ Len(c.outs) = 0 \/ c.desc = <<>> THEN Done("err")
         ELSE LET p == DataStart(c.ed, c.h, c.opt, c.desc, Len(c.outs))
              IN Machine("enc", c.obs.d, p, 8 * Len(c.obs.d), TabOf(c), c.desc, Len(c.outs), FALSE, FALSE, c.outs)

-----------------------------------------------------------------------------
(* What survives encoding and decoding: everything but the padding of text   *)
RECURSIVE Unpad(_)
Unpad(t) == IF t # <<>> /\ Blank(t[Len(t)]) THEN Unpad(SubSeq(t, 1, Len(t) - 1)) ELSE t
\* and, in replication factors, the difference between missing and all ones
Blurred(v) == NeverMissing(v.c) /\ (v.set = 0 \/ NAdd(AllOnes(v.bl), v.rf) = v.v)
Essence(v) ==
  IF Blurred(v) THEN <<v.c, v.y, v.sc, v.bl>>
  ELSE <<v.c, v.y, v.sc, v.bl, v.set, v.v, IF v.y = "s" THEN Unpad(v.tx) ELSE v.tx>>
Essences(v) ==
  LET at == SelectSeq(v.at, LAMBDA w : ~Blurred(w))
  IN <<Essence(v), [i \in 1..Len(at) |-> Essence(at[i])]>>
SameData(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) :
       /\ Len(a[i]) = Len(b[i])
       /\ \A j \in 1..Len(a[i]) : Essences(a[i][j]) = Essences(b[i][j])

\* header fields as an edition can represent them
Stored(ed, h) ==
  IF ed = 4 THEN h
  ELSE [h EXCEPT !.ce = @ % 256, !.sc = @ % 256, !.sub = 255, !.ss = 0,
                 !.yr = LET yy == IF @ = 2000 THEN 100 ELSE @ % 100 IN IF yy > 50 THEN 1900 + yy ELSE 2000 + yy]
StoredOpt(opt) == IF Len(opt) % 2 = 1 THEN Append(opt, 0) ELSE opt

\* the outcome recorded is the one prescribed
Verdict(c, x) ==
  CASE c.op = "dec" ->
         LET hd == ParseHeader(c.d)
             ok == x.st = "ok" /\ EndMark(c.d, hd.sec[5])
         IN IF ~ok THEN c.obs.st = "err"
            ELSE /\ c.obs.st = "ok"
                 /\ SameHeader(hd, c.obs)
                 /\ c.obs.sec = hd.sec \o <<hd.sec[5] + 4>>
                 /\ c.obs.outs = x.outs
    [] c.op = "hdr" ->
         IF x.st # "ok" THEN c.obs.st = "err"
         ELSE c.obs.st = "ok" /\ SameHeader(ParseHeader(c.d), c.obs)
    [] c.op = "rt" ->
         /\ c.obs.st = "ok" /\ c.obs.ed = c.ed /\ c.obs.h = Stored(c.ed, c.h)
         /\ c.obs.opt = StoredOpt(c.opt) /\ c.obs.comp = 0
         \* a padding byte after the descriptors may not be told from descriptors
         /\ c.obs.desc = c.desc
         /\ SameData(c.outs, c.obs.outs)
    [] c.op = "val" ->
         \* what is accepted can be encoded
         /\ c.obs.st = "ok" => c.obs.enc = "ok"
         /\ IF x.st = "any" THEN c.obs.st \in {"ok", "err"}
            ELSE IF x.st = "ok" THEN c.obs.st = "ok"
            ELSE c.obs.st = "err" /\ c.obs.at = x.sub
    [] c.op = "enc" ->
         IF x.st = "err" THEN c.obs.st = "err"
         ELSE IF x.st = "any" THEN c.obs.st \in {"ok", "err"}
         ELSE /\ x.st = "ok" /\ c.obs.st = "ok"
              /\ EnvelopeHolds(c.obs.d, c.ed, c.h, c.opt, c.desc, Len(c.outs), x.pos)

\* what is worth showing of the prescribed outcome
Brief(x) == IF "stack" \notin DOMAIN x THEN x
            ELSE [st |-> x.st, pos |-> x.pos, lim |-> x.lim, sub |-> x.sub, vi |-> x.vi, m |-> x.m, af |-> x.af,
                  bm |-> x.bm, stack |-> x.stack, outs |-> IF x.mode = "dec" THEN x.outs ELSE <<>>]

Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0
        /\ s = Begin(Cases[k])

Live == s.st = "run" /\ n < (IF "big" \in DOMAIN Cases[k] THEN 80000 ELSE MaxSteps)
StepTo(x) == s' = x /\ n' = n + 1 /\ k' = k

ReadOrWriteElement == Live /\ IsElement(s) /\ StepTo(Element(s))
ReplicateGroup == Live /\ IsReplication(s) /\ StepTo(Replication(s))
ApplyOperator == Live /\ IsOperator(s) /\ StepTo(Operator(s))
ExpandSequence == Live /\ IsSequence(s) /\ StepTo(Sequence(s))
ReturnFromGroup == Live /\ IsReturn(s) /\ StepTo(Return(s))
FinishSubset == Live /\ IsEndSubset(s) /\ StepTo(EndSubset(s))

\* the run is over: judge it, then go on with the next case of this chunk
Judge == /\ ~Live /\ s.st # "done"
         /\ IF s.st \in {"run", "long"} /\ Cases[k].obs.st # "crash" THEN PrintT(<<"SKIP", Cases[k].id>>)
            ELSE IF Cases[k].obs.st # "crash" /\ Verdict(Cases[k], s) THEN PrintT(<<"ACCEPT", Cases[k].id>>)
            ELSE /\ PrintT(<<"REJECT", Cases[k].id>>)
                 /\ IOEnv.EXPLAIN = "1" => PrintT(<<"PRESCRIBED", Brief(s)>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ s' = Begin(Cases[k']) /\ n' = 0
            ELSE k' = k /\ s' = Done("done") /\ n' = n + 1

Next == ReadOrWriteElement \/ ReplicateGroup \/ ApplyOperator \/ ExpandSequence \/ ReturnFromGroup \/ FinishSubset \/ Judge
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Invariants evaluated at every step of every recorded run                  *)
IsMachine == "stack" \in DOMAIN s
\* never read outside the data section
InBounds == IsMachine /\ s.mode = "dec" => s.pos <= s.lim \/ s.pos = 8 * (ParseHeader(s.d).sec[4] + 4)
\* attributes are ordered, unique and flat
OrderedAttrs == IsMachine => \A a \in 1..Len(s.outs) : \A b \in 1..Len(s.outs[a]) :
                   LET at == s.outs[a][b].at IN
                   /\ \A i \in 1..(Len(at) - 1) : at[i].c < at[i + 1].c
                   /\ \A i \in 1..Len(at) : at[i].at = <<>>
\* bitmaps point at element variables that exist
MapsPointAtElements == IsMachine => \A i \in 1..Len(s.bm.cur.refs) :
                   LET p == s.bm.cur.refs[i] IN p <= Len(s.outs[s.sub]) /\ F(s.outs[s.sub][p].c) = 0
=============================================================================
