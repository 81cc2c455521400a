----------------------------- MODULE ConvTrace -----------------------------
(* Recorded conversions. k = "conv": ops [a, b, v], obs [st, r];             *)
(* k = "set": ops [a, b, v, lo, hi, half], obs [st, r]: variables set from   *)
(* others, the result being rounded to within half and limited to lo and hi; *)
(* k = "code": ops [f, v], obs [st, n] with an integer; k = "icao": ops      *)
(* [h], obs [r]                                                              *)
EXTENDS Units, Json, IOUtils
C == INSTANCE Codes
Cases == ndJsonDeserialize(IOEnv.CASES)
NChunks == 8
VARIABLES k, n, st
vars == <<k, n, st>>
View == <<k, n>>

Case == Cases[k]
Init == /\ k \in {j \in 1..NChunks : j <= Len(Cases)}
        /\ n = 0 /\ st = IF Cases[k].st = "ok" THEN "run" ELSE "bad"
Live == st = "run" /\ n < Len(Case.ops)

Agrees(q, o) == IF ~Supported(q.a, q.b) THEN o.st = "err"
                ELSE o.st = "ok" /\ Converted(q.a, q.b, q.v, o.r, IF q.a = q.b THEN DZero ELSE DMul(DE(1, -14), DAbs(q.v)))
\* the value is in the range of the destination, and not near its ends
Inside(q) ==
  LET s == DAdd(DMul(D(2), q.half), DMul(DE(1, -4), DMax(DAbs(q.lo), DAbs(q.hi))))
      lo == DAdd(q.lo, s)
      hi == DSub(q.hi, s)
  IN IF q.a = q.b \/ <<q.a, q.b>> \in Names \/ <<q.b, q.a>> \in Names THEN DLe(lo, q.v) /\ DLe(q.v, hi)
     ELSE IF <<q.a, q.b>> \in DOMAIN Direct
     THEN LET l == Direct[<<q.a, q.b>>]
              y == DAdd(DMul(q.v, DE(l[3], l[4])), DE(l[5], l[6]))
          IN DLe(lo, y) /\ DLe(y, hi)
     ELSE LET l == Direct[<<q.b, q.a>>]
              y(x) == DAdd(DMul(x, DE(l[3], l[4])), DE(l[5], l[6]))
          IN DLe(y(lo), q.v) /\ DLe(q.v, y(hi))
SetAgrees(q, o) == IF ~Supported(q.a, q.b) THEN o.st = "err"
                   ELSE IF o.st = "ok" THEN DLe(q.lo, o.r) /\ DLe(o.r, q.hi) /\ Converted(q.a, q.b, q.v, o.r, q.half)
                   ELSE o.st = "err" /\ ~Inside(q)
CodeAgrees(q, o) == LET r == C!Convert(q.f, q.v) IN IF r = C!Refused THEN o.st = "err" ELSE o.st = "ok" /\ o.n = r

Step == /\ Live
        /\ LET q == Case.ops[n + 1]
               o == Case.obs[n + 1]
           IN st' = IF CASE Case.k = "conv" -> Agrees(q, o)
                         [] Case.k = "set" -> SetAgrees(q, o)
                         [] Case.k = "code" -> CodeAgrees(q, o)
                         [] OTHER -> o.st = "ok" /\ (n > 0 => DLess(o.r, Case.obs[n].r))
                                     /\ \A i \in 1..Len(Atmosphere) : Atmosphere[i][1] = q.h => DWithin(DE(Atmosphere[i][2], -2), o.r, DE(Atmosphere[i][2] * 3, -5))
                   THEN "run" ELSE "bad"
        /\ n' = n + 1 /\ k' = k
Verdict == st = "run"
Judge == /\ ~Live /\ st # "done"
         /\ PrintT(<<IF Verdict THEN "ACCEPT" ELSE "REJECT", Case.id>>)
         /\ (~Verdict /\ IOEnv.EXPLAIN = "1") => PrintT(<<"PRESCRIBED", [n |-> n]>>)
         /\ IF k + NChunks <= Len(Cases)
            THEN k' = k + NChunks /\ n' = 0 /\ st' = (IF Cases[k'].st = "ok" THEN "run" ELSE "bad")
            ELSE k' = k /\ n' = n + 1 /\ st' = "done"
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
