----------------------------- MODULE WrepTrace ------------------------------
(* Recorded runs of wrep: args, files [name, d, there, ms], and what it did: *)
(* exit, out, errs (file, offset) as reported, offset -1 for the whole file. *)
(* One step for each message, and one for the end of each file.              *)
EXTENDS Wrep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NChunks == 8
VARIABLES k, n, f, p, j, pos, ne, headed, st
vars == <<k, n, f, p, j, pos, ne, headed, st>>
View == <<k, n>>

C == Cases[k]
O == Options(Start, C.args)
File == C.files[O.files[f]]
Live == st = "run" /\ f <= Len(O.files)

Fresh(i) == IF Cases[i].st # "ok" THEN "bad"
            ELSE LET o == Options(Start, Cases[i].args) m == Mode(o)
                 IN IF m = "run" THEN "run"
                    ELSE IF m = "usage" THEN (IF Cases[i].exit = 1 /\ Cases[i].out = <<>> THEN "good" ELSE "bad")
                    ELSE IF Cases[i].exit = 0 THEN "good" ELSE "bad"
Init == /\ k \in {i \in 1..NChunks : i <= Len(Cases)}
        /\ n = 0 /\ f = 1 /\ p = 1 /\ j = 1 /\ pos = 1 /\ ne = 1 /\ headed = FALSE
        /\ st = Fresh(k)

Err(i, off) == ne <= Len(C.errs) /\ C.errs[ne] = <<i, off>>
Step ==
  /\ Live
  /\ n' = n + 1 /\ k' = k
  /\ LET r == IF File.there = 1 THEN Read(Kind(O), File.d, p) ELSE [st |-> "err"] IN
     IF r.st = "ok"
     THEN IF j > Len(File.ms) \/ (IF j > Len(File.ms) THEN TRUE ELSE File.ms[j].off # r.off \/ File.ms[j].d # r.d)
          THEN st' = "bad" /\ UNCHANGED <<f, p, j, pos, ne, headed>>
          ELSE LET x == File.ms[j]
                   t == Piece(O, File.name, x, headed)
               IN /\ st' = IF ~(t = <<>> \/ At(C.out, pos, t)) \/ (Reported(O, x) /\ ~Err(O.files[f], x.off)) THEN "bad" ELSE "run"
                  /\ pos' = pos + Len(t)
                  /\ ne' = IF Reported(O, x) THEN ne + 1 ELSE ne
                  /\ headed' = (headed \/ x.bad = 0)
                  /\ p' = r.next /\ j' = j + 1 /\ f' = f
     ELSE \* the end of the file, or an error that ends it
          /\ st' = IF r.st = "err" /\ Quiet(O) /\ ~Err(O.files[f], -1) THEN "bad" ELSE "run"
          /\ ne' = IF r.st = "err" /\ Quiet(O) THEN ne + 1 ELSE ne
          /\ f' = f + 1 /\ p' = 1 /\ j' = 1
          /\ UNCHANGED <<pos, headed>>

Good == st = "good" \/ (st = "run" /\ pos = Len(C.out) + 1 /\ (~Quiet(O) \/ ne = Len(C.errs) + 1) /\ C.exit = 0)
Judge == /\ ~Live /\ st # "done"
         /\ PrintT(<<IF Good THEN "ACCEPT" ELSE "REJECT", C.id>>)
         /\ (~Good /\ IOEnv.EXPLAIN = "1") => PrintT(<<"PRESCRIBED", [options |-> O, mode |-> Mode(O), file |-> f, message |-> j, pos |-> pos, errors |-> ne]>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ st' = Fresh(k + NChunks)
            ELSE k' = k /\ n' = n + 1 /\ st' = "done"
         /\ f' = 1 /\ p' = 1 /\ j' = 1 /\ pos' = 1 /\ ne' = 1 /\ headed' = FALSE
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
