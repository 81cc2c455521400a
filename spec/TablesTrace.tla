---------------------------- MODULE TablesTrace ----------------------------
(* Recorded uses of tables:                                                  *)
(*  k = "b", "c": loading of a B table: lines, st, q (what querying every    *)
(*      code gave), it (what iteration gave), ct (the codes contained)       *)
(*  k = "d": loading of a D table: lines, st, q (what querying every code    *)
(*      gave)                                                                *)
(*  k = "alt": descriptors asked to a table: ops, obs, end (all descriptors  *)
(*      handed out, as they are at the end), it (iteration at the end)       *)
(*  k = "find": choices: inst, ops, obs (position chosen, or 0)              *)
EXTENDS Tables, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Tabs == IF IOEnv.TABLES = "" THEN <<>> ELSE JsonDeserialize(IOEnv.TABLES)
NChunks == 8
VARIABLES k, n, s, st
vars == <<k, n, s, st>>
View == <<k, n>>

Case == Cases[k]
Start(j) == LET c == Cases[j] IN
  IF c.k \in {"b", "c"} THEN [n |-> 0, last |-> -1]
  ELSE IF c.k = "d" THEN DStart
  ELSE IF c.k = "alt" THEN [given |-> <<>>]
  ELSE [seen |-> <<>>, dirs |-> <<0, 1>>]
StartSt(j) == IF Cases[j].st \in {"ok", "err"} THEN "run" ELSE "bad"

Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ s = Start(k) /\ st = StartSt(k)

Steps == IF Case.k \in {"b", "c", "d"} THEN Len(Case.lines) ELSE Len(Case.ops)
Live == st = "run" /\ n < Steps

\* one more line; the rest of a file is not looked at after a line that cannot be read
LineB == /\ Live /\ Case.k \in {"b", "c"}
         /\ LET e == BLine(Case.k, Case.lines[n + 1])
                wrong == IsBad(e) \/ (e # Nothing /\ e.c <= s.last)
            IN IF wrong
               THEN st' = (IF Case.st = "err" THEN "over" ELSE "bad") /\ s' = s
               ELSE IF e = Nothing THEN st' = st /\ s' = s
               ELSE /\ s' = [n |-> s.n + 1, last |-> e.c]
                    /\ st' = IF Case.st = "ok" /\ (s.n >= Len(Case.q) \/ Case.q[s.n + 1] # Full(e)) THEN "bad" ELSE "run"
         /\ n' = n + 1 /\ k' = k

LineD == /\ Live /\ Case.k = "d"
         /\ LET t == DLine(s, Case.lines[n + 1])
            IN IF IsBad(t) THEN st' = (IF Case.st = "err" THEN "over" ELSE "bad") /\ s' = s
               ELSE st' = st /\ s' = t
         /\ n' = n + 1 /\ k' = k

Ask == /\ Live /\ Case.k = "alt"
       /\ LET q == Case.ops[n + 1]
              a == Asked(Tabs[Case.tab], q)
              o == Case.obs[n + 1]
          IN /\ st' = IF IsBad(a) THEN (IF o.st = "err" THEN "run" ELSE "bad")
                      ELSE IF o.st = "ok" /\ o.i = a THEN "run" ELSE "bad"
             /\ s' = IF IsBad(a) THEN s ELSE [s EXCEPT !.given = Append(@, a)]
       /\ n' = n + 1 /\ k' = k

\* the same question has the same answer, now and in a process that started with the files listed in another order
\* The tables in the directories configured so far: directories are searched in the order in which they were added,
\* once each; adding one takes effect for what is asked from then on.
Configured(inst, dirs) ==
  [i \in 1..Len(inst) |-> IF \E j \in 1..Len(dirs) : dirs[j] = inst[i].dir
                          THEN [inst[i] EXCEPT !.dir = CHOOSE j \in 1..Len(dirs) : dirs[j] = inst[i].dir]
                          ELSE [inst[i] EXCEPT !.k = "x", !.mt = -1, !.name = ""]]
AtStart == <<0, 1>>
\* (loading a file of known path gives that one)
Found(q, inst) == IF q.op = "load" THEN {i \in 1..Len(inst) : Case.inst[i].name = q.name /\ Case.inst[i].dir = q.dir} ELSE IF q.op = "name" THEN FirstDir(inst, {i \in 1..Len(inst) : inst[i].name = q.name}) ELSE Choice(q.w, inst)
Find == /\ Live /\ Case.k = "find"
        /\ LET q == Case.ops[n + 1]
               o == Case.obs[n + 1]
           IN IF q.op = "begin" THEN s' = [s EXCEPT !.dirs = AtStart] /\ st' = "run"
              ELSE IF q.op = "add"
              THEN /\ s' = [s EXCEPT !.dirs = IF \E j \in 1..Len(@) : @[j] = q.dir THEN @ ELSE Append(@, q.dir)]
                   /\ st' = IF o = 0 THEN "run" ELSE "bad"
              ELSE LET c == Found(q, Configured(Case.inst, s.dirs))
                       key == ToString(<<q, s.dirs>>)
                   IN /\ st' = IF c = {} THEN (IF o = 0 THEN "run" ELSE "bad")
                               ELSE IF o \in c /\ (key \in DOMAIN s.seen => s.seen[key] = o) THEN "run" ELSE "bad"
                      /\ s' = [s EXCEPT !.seen = TLCEval([x \in DOMAIN @ \cup {key} |-> IF x = key THEN o ELSE @[x]])]
        /\ n' = n + 1 /\ k' = k

Codes(q) == [i \in 1..Len(q) |-> q[i].c]
\* in the order of the codes, the entry and then the altered ones handed out
IterationOf(tab, given, it) ==
  LET bases == SelectSeq(it, LAMBDA e : Has(tab, e.c) /\ Full(Entry(tab, e.c)) = e)
  IN /\ \A i \in 1..(Len(it) - 1) : it[i].c <= it[i + 1].c
     /\ Len(bases) = Cardinality(DOMAIN tab.B)
     /\ {it[i] : i \in 1..Len(it)} = {bases[i] : i \in 1..Len(bases)} \cup {given[i] : i \in 1..Len(given)}
     /\ \A i \in 1..Len(it) : (i = 1 \/ it[i - 1].c # it[i].c) => Full(Entry(tab, it[i].c)) = it[i]
Verdict ==
  IF st # "run" THEN st = "over"
  ELSE IF Case.k \in {"b", "c"}
  THEN Case.st = "ok" /\ s.n = Len(Case.q) /\ Case.it = Case.q /\ Case.ct = Codes(Case.q)
  ELSE IF Case.k = "d"
  THEN LET t == DEnd(s)
       IN IF IsBad(t) THEN Case.st = "err"
          ELSE /\ Case.st = "ok"
               /\ {ToString(Case.q[i].c) : i \in 1..Len(Case.q)} = DOMAIN t.exp
               /\ \A i \in 1..Len(Case.q) : Case.q[i].d \in t.exp[ToString(Case.q[i].c)]
  ELSE IF Case.k = "alt" THEN /\ Case.end = s.given /\ IterationOf(Tabs[Case.tab], s.given, Case.it)
       \* asked to stop after some entries, it does, and tells
       /\ \A i \in 1..Len(Case.cut) : Case.cut[i][2] = Case.cut[i][1] /\ Case.cut[i][3] = 2
  ELSE TRUE

Explain == IF st # "run" /\ n > 0
           THEN IF Case.k \in {"b", "c"} THEN [n |-> n, want |-> BLine(Case.k, Case.lines[n])]
                ELSE IF Case.k = "alt" THEN [n |-> n, want |-> Asked(Tabs[Case.tab], Case.ops[n])]
                ELSE IF Case.k = "find" /\ Case.ops[n].op \notin {"begin", "add"} THEN [n |-> n, dirs |-> s.dirs, want |-> Found(Case.ops[n], Configured(Case.inst, s.dirs))]
                ELSE [n |-> n]
           ELSE [n |-> n]
Judge == /\ ~Live /\ st # "done"
         /\ PrintT(<<IF Verdict THEN "ACCEPT" ELSE "REJECT", Case.id>>)
         /\ (~Verdict /\ IOEnv.EXPLAIN = "1") => PrintT(<<"PRESCRIBED", Explain>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ s' = Start(k') /\ st' = StartSt(k')
            ELSE k' = k /\ n' = n + 1 /\ s' = s /\ st' = "done"

Next == LineB \/ LineD \/ Ask \/ Find \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
