------------------------------- MODULE Stream -------------------------------
(* A stream of bytes with BUFR and CREX messages among other bytes, and what *)
(* reading the next message from position p (from 1) gives.                  *)
EXTENDS Integers, Sequences, TLC

BUFR == <<66, 85, 70, 82>>
CREX == <<67, 82, 69, 88, 43, 43>>
At(d, p, t) == p >= 1 /\ p + Len(t) - 1 <= Len(d) /\ SubSeq(d, p, p + Len(t) - 1) = t

\* first position from p on where t is found, or 0
Least(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
Find(d, p, t) == Least({x \in p..(Len(d) - Len(t) + 1) : d[x] = t[1] /\ At(d, x, t)})

End(p) == [st |-> "end", next |-> p]
Error == [st |-> "err"]
Message(d, a, b) == [st |-> "ok", off |-> a - 1, d |-> SubSeq(d, a, b), next |-> b + 1]

\* BUFR: signature, then the length of the whole message in three bytes
ReadBufr(d, p) ==
  LET a == Find(d, p, BUFR) IN
  IF a = 0 THEN End(Len(d) + 1)
  ELSE IF a + 7 > Len(d) THEN Error
  ELSE LET n == d[a + 4] * 65536 + d[a + 5] * 256 + d[a + 6]
       IN IF n < 12 \/ a + n - 1 > Len(d) THEN Error ELSE Message(d, a, a + n - 1)

\* CREX: up to the first "++", line ends, "7777" after the signature
RECURSIVE LineEnds(_, _)
LineEnds(d, p) == IF p <= Len(d) /\ d[p] \in {10, 13} THEN LineEnds(d, p + 1) ELSE p
Terminates(d, q) == At(d, q, <<43, 43>>) /\ LineEnds(d, q + 2) > q + 2 /\ At(d, LineEnds(d, q + 2), <<55, 55, 55, 55>>)
FindEnd(d, q) == LET e == Least({x \in q..(Len(d) - 6) : d[x] = 43 /\ Terminates(d, x)})
                 IN IF e = 0 THEN 0 ELSE LineEnds(d, e + 2) + 3

ReadCrex(d, p) ==
  LET a == Find(d, p, CREX) IN
  IF a = 0 THEN End(Len(d) + 1)
  ELSE LET e == FindEnd(d, a + 6) IN IF e = 0 THEN Error ELSE Message(d, a, e)

Read(kind, d, p) == IF kind = "rb" THEN ReadBufr(d, p) ELSE ReadCrex(d, p)
\* what writing adds to the stream
Written(kind, m) == IF kind = "wc" THEN m \o <<13, 13, 10>> ELSE m
=============================================================================
