------------------------------ MODULE StreamMC ------------------------------
(* Streams made of pieces: whole messages, other bytes, and a message cut    *)
(* short at the end. Reading them to their end gives back all the messages   *)
(* that were written, and nothing else. Every stream is printed, to be read  *)
(* by the library.                                                           *)
EXTENDS Stream, Json, IOUtils
Given == JsonDeserialize(IOEnv.PIECES)   \* [kind, n, pieces: [what, d]]; what: "msg", "noise" or "cut"
VARIABLES w, data, sent, p, got, phase
vars == <<w, data, sent, p, got, phase>>

Piece(i) == Given.pieces[i]
Init == w = <<>> /\ data = <<>> /\ sent = <<>> /\ p = 1 /\ got = <<>> /\ phase = "write"
Write == /\ phase = "write" /\ Len(w) < Given.n
         /\ \E i \in 1..Len(Given.pieces) :
              LET x == Piece(i) IN
              /\ w' = Append(w, i)
              /\ data' = data \o x.d
              /\ sent' = IF x.what = "msg" THEN Append(sent, <<Len(data), x.d>>) ELSE sent
              \* nothing can follow what was cut short
              /\ phase' = IF x.what = "cut" THEN "cut" ELSE "write"
         /\ UNCHANGED <<p, got>>
\* the end of the stream may be as it should, or not
Close == /\ phase \in {"write", "cut"}
         /\ phase' = IF phase = "cut" THEN "read-cut" ELSE "read"
         /\ IOEnv.EXPORT = "1" => PrintT(<<"STREAM", w>>)
         /\ UNCHANGED <<w, data, sent, p, got>>
ReadOne == /\ phase \in {"read", "read-cut"}
           /\ LET r == Read(Given.kind, data, p) IN
              IF r.st = "ok" THEN p' = r.next /\ got' = Append(got, <<r.off, r.d>>) /\ UNCHANGED phase
              ELSE /\ phase' = IF r.st = "end" THEN (IF phase = "read" THEN "end" ELSE "cut-unseen") ELSE (IF phase = "read" THEN "failed" ELSE "cut-seen")
                   /\ UNCHANGED <<p, got>>
           /\ UNCHANGED <<w, data, sent>>
Next == Write \/ Close \/ ReadOne
Spec == Init /\ [][Next]_vars /\ WF_vars(ReadOne)

\* at any time, what has been read is what was written, as far as it goes
InOrder == Len(got) <= Len(sent) /\ got = SubSeq(sent, 1, Len(got))
Complete == phase \in {"end", "cut-seen"} => got = sent
NoError == phase # "failed"
CutReported == phase # "cut-unseen"
Ends == (phase \in {"read", "read-cut"}) ~> (phase \in {"end", "cut-seen"})
=============================================================================
