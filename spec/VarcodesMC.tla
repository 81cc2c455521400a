----------------------------- MODULE VarcodesMC -----------------------------
(* The laws of codes and lists, for all codes and for all short lists         *)
EXTENDS Varcodes
CONSTANT MaxLen
VARIABLES c, l, took
vars == <<c, l, took>>
\* a list being consumed, and what has been taken from it
Lists == UNION {[1..k -> {1, 2}] : k \in 0..MaxLen}
Ops == {[op |-> o, i |-> i, j |-> j] : o \in {"pop", "popn"}, i \in 0..MaxLen + 1, j \in {0}}
Init == c = 0 /\ l \in Lists /\ took = <<l, <<>>>>
Consume == \E q \in Ops : LET x == Does(l, q) IN
             /\ l' = x.l /\ c' = c
             /\ took' = IF x.st = "err" THEN took
                        ELSE <<took[1], took[2] \o (IF q.op = "pop" THEN <<x.n>> ELSE x.r)>>
Count == l = <<>> /\ took = <<<<>>, <<>>>> /\ c < 65535 /\ c' = c + 1 /\ UNCHANGED <<l, took>>
Next == Consume \/ Count
Spec == Init /\ [][Next]_vars
\* text and codes correspond
RoundTrip == Parse(Format(c)) = [st |-> "ok", n |-> c] /\ Parse(Spell(c)) = [st |-> "ok", n |-> c] /\ Code(F(c), X(c), Y(c)) = c
\* nothing is lost, invented or seen twice
Conserved == took[2] \o l = took[1]
\* slices agree with one another
Slices == \A i \in 0..MaxLen + 1 : \A j \in 0..MaxLen + 1 :
  LET s2 == Does(l, [op |-> "sub2", i |-> i, j |-> j]).r
      s1 == Does(l, [op |-> "sub", i |-> i]).r
  IN /\ s2 = Cut(s1, 0, j) /\ Len(s2) <= j
     /\ \A k \in 1..Len(s2) : s2[k] = Does(l, [op |-> "at", i |-> i + k - 1]).n
=============================================================================
