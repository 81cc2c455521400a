------------------------------ MODULE PyTrace ------------------------------
(* Histories of variables through the Python bindings: what the library does, *)
(* as far as it can be reached from there, and a few operations of their own. *)
(* A case is as in VarTrace.                                                  *)
EXTENDS Var, Varcodes0, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Tabs == JsonDeserialize(IOEnv.TABLES)
NChunks == 8
Slots == 4
VARIABLES k, n, s, bad
vars == <<k, n, s, bad>>
View == <<k, n>>

Empty == [i \in 1..Slots |-> None]
Ops == Cases[k].ops
Obs == Cases[k].obs
Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ s = Empty /\ bad = FALSE

Table(o) == Tabs[o.q.kind]
Known(o) == ToString(o.q.c) \in DOMAIN Table(o)
Entry0(o) == Table(o)[ToString(o.q.c)]
AnyError(x) == {[s |-> x, r |-> [R0 EXCEPT !.st = "err", !.cls = c]] : c \in {"other", "domain"}}
NoneText == <<78, 111, 110, 101>>
Shown(v) == IF v.set = 0 THEN NoneText ELSE IF Numeric(v) THEN FixedText(v.v, v.sc) ELSE v.tx
Quoted(t) == <<39>> \o t \o <<39>>
\* the value with the type of the variable
Typed(v) == IF v.y = "i" THEN [R0 EXCEPT !.b = 1, !.n = v.v]
            ELSE IF v.y = "d" THEN [R0 EXCEPT !.b = 2, !.m = ValueOf(v).m, !.e = ValueOf(v).e]
            ELSE [R0 EXCEPT !.b = 3, !.tx = v.tx]
InfoShown(e) == [c |-> e.c, y |-> e.y, sc |-> e.sc, bl |-> e.bl, rf |-> e.rf, len |-> e.len, un |-> e.un]

Copying == [copyi |-> "seti", copyd |-> "setd", copys |-> "sets"]
PyOutcomes(o) ==
  LET v == s[o.a] IN
  CASE o.op \in {"new", "newi", "newd", "newc", "news", "newbig", "ask"} /\ ~Known(o) -> AnyError(s)
    \* numbers that the library has no type for
    [] o.op = "newbig" -> AnyError(s)
    [] o.op = "has" -> Read(s, [R0 EXCEPT !.b = IF Known(o) THEN 1 ELSE 0])
    [] o.op = "ask" -> Read(s, [R0 EXCEPT !.va = InfoShown(Entry0(o))])
    [] o.op = "drop" -> Put(s, o.a, None)
    [] o.op = "enqt" -> IF v.set = 0 THEN Fails(s) ELSE Read(s, Typed(v))
    [] o.op = "gett" -> Read(s, IF v.set = 0 THEN [R0 EXCEPT !.b = 9] ELSE Typed(v))
    [] o.op = "str" -> Read(s, [R0 EXCEPT !.tx = Shown(v)])
    [] o.op = "repr" -> Read(s, [R0 EXCEPT !.tx = <<86, 97, 114, 40>> \o Quoted(FormatCode(v.c)) \o <<44, 32>> \o
                                   (IF v.y = "s" /\ v.set = 1 THEN Quoted(v.tx) ELSE Shown(v)) \o <<41>>])
    [] o.op = "eqx" -> Read(s, R0)
    [] o.op = "bad" -> AnyError(s)
    \* a copy with another value: both or nothing
    [] o.op \in DOMAIN Copying ->
         UNION {IF x.r.st # "ok" THEN {x}
                ELSE {[s |-> IF y.r.st = "ok" THEN y.s ELSE s, r |-> y.r] : y \in Outcomes(x.s, [o EXCEPT !.op = Copying[o.op], !.b = 0])}
                : x \in Outcomes(s, [o EXCEPT !.op = "copy"])}
    [] OTHER -> Outcomes(s, o)

\* error classes other than domain errors are not prescribed
Cls(r) == [r EXCEPT !.cls = IF r.st = "err" /\ r.cls \notin {"domain", "system"} THEN "other" ELSE r.cls]

Need(o) == IF o.op \in {"new", "newi", "newd", "newc", "news", "newbig", "has", "ask", "drop"} THEN {}
           ELSE IF o.op = "copy" THEN {o.b} ELSE IF o.b > 0 THEN {o.a, o.b} ELSE {o.a}
Step == /\ n >= 0 /\ n < Len(Ops) /\ ~bad /\ Cases[k].st = "ok"
        /\ Assert(\A i \in Need(Ops[n + 1]) : s[i] # None, <<"history applies", Cases[k].id, n>>)
        /\ bad' = \/ [s |-> Obs[n + 1].s, r |-> Cls(Obs[n + 1].r)] \notin PyOutcomes(Ops[n + 1])
                  \* objects handed to the bindings stay owned by the caller
                  \/ Obs[n + 1].rc # 0
                  \/ \E i \in 1..Slots : ~Sound(Obs[n + 1].s[i])
        /\ s' = Obs[n + 1].s
        /\ n' = n + 1 /\ k' = k
        /\ bad' /\ IOEnv.EXPLAIN = "1" => PrintT(<<"PRESCRIBED", [step |-> n + 1, op |-> Ops[n + 1], before |-> s, allowed |-> PyOutcomes(Ops[n + 1])]>>)
Over == n = Len(Ops) \/ bad \/ Cases[k].st # "ok"
Judge == /\ Over /\ n >= 0
         /\ PrintT(<<IF bad \/ Cases[k].st # "ok" THEN "REJECT" ELSE "ACCEPT", Cases[k].id>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ s' = Empty /\ bad' = FALSE
            ELSE k' = k /\ n' = -1 /\ UNCHANGED <<s, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
