------------------------------ MODULE Varcodes ------------------------------
(* Descriptor codes, F (2 bits) X (6 bits) Y (8 bits), their text form, and   *)
(* lists of descriptors that are consumed from the left and sliced            *)
EXTENDS Integers, Sequences

F(c) == c \div 16384
X(c) == (c \div 256) % 64
Y(c) == c % 256
Code(f, x, y) == 16384 * f + 256 * x + y

Letters == <<66, 82, 67, 68>>   \* B R C D
Digit(n) == 48 + n
Rest(c) == <<Digit(X(c) \div 10), Digit(X(c) % 10), Digit(Y(c) \div 100), Digit((Y(c) \div 10) % 10), Digit(Y(c) % 10)>>
Format(c) == <<Letters[F(c) + 1]>> \o Rest(c)
\* the other spelling, with a digit for F
Spell(c) == <<Digit(F(c))>> \o Rest(c)

\* the first six characters count: what comes after them belongs to someone else
IsDigit(b) == b >= 48 /\ b <= 57
FOf(b) == CASE b \in {66, 48} -> 0 [] b \in {82, 49} -> 1 [] b \in {67, 50} -> 2 [] b \in {68, 51} -> 3 [] OTHER -> -1
Sound(t) == Len(t) >= 6 /\ FOf(t[1]) >= 0 /\ \A k \in 2..6 : IsDigit(t[k])
XOf(t) == 10 * (t[2] - 48) + (t[3] - 48)
YOf(t) == 100 * (t[4] - 48) + 10 * (t[5] - 48) + (t[6] - 48)
\* [st, n]; "any": Y that do not fit are not prescribed, except that they are still descriptors of the same type
Parse(t) == IF ~Sound(t) THEN [st |-> "err", n |-> 0]
            ELSE IF XOf(t) > 63 THEN [st |-> "err", n |-> 0]
            ELSE IF YOf(t) > 255 THEN [st |-> "any", n |-> FOf(t[1])]
            ELSE [st |-> "ok", n |-> Code(FOf(t[1]), XOf(t), YOf(t))]

Types == <<"binary", "string", "integer", "decimal">>

-----------------------------------------------------------------------------
(* Lists: Does(l, q) gives [l, st, n, r]: the list afterwards, whether it     *)
(* could be done, the number and the list that came out                       *)
Cut(l, skip, len) == IF skip >= Len(l) THEN <<>>
                     ELSE SubSeq(l, skip + 1, IF len >= Len(l) - skip THEN Len(l) ELSE skip + len)
Out(l, n, r) == [l |-> l, st |-> "ok", n |-> n, r |-> r]
Err(l) == [l |-> l, st |-> "err", n |-> 0, r |-> <<>>]
Many == 1000000  \* stands for any number of descriptors that no list has
Does(l, q) ==
  CASE q.op = "at" -> Out(l, IF q.i < Len(l) THEN l[q.i + 1] ELSE 0, <<>>)
    [] q.op = "size" -> Out(l, Len(l), <<>>)
    [] q.op = "empty" -> Out(l, IF l = <<>> THEN 1 ELSE 0, <<>>)
    [] q.op = "head" -> Out(l, IF l = <<>> THEN 0 ELSE l[1], <<>>)
    [] q.op = "pop" -> IF l = <<>> THEN Err(l) ELSE Out(Tail(l), l[1], <<>>)
    [] q.op = "popn" -> IF q.i > Len(l) THEN Err(l) ELSE Out(Cut(l, q.i, Many), 0, Cut(l, 0, q.i))
    [] q.op = "next" -> Out(l, 0, IF l = <<>> THEN <<>> ELSE Tail(l))
    [] q.op = "sub" -> Out(l, 0, Cut(l, q.i, Many))
    [] q.op = "sub2" -> Out(l, 0, Cut(l, q.i, q.j))
    \* goes on with the list that came out
    [] q.op = "nextgo" -> LET r == IF l = <<>> THEN <<>> ELSE Tail(l) IN Out(r, 0, r)
    [] q.op = "subgo" -> LET r == Cut(l, q.i, Many) IN Out(r, 0, r)
    [] q.op = "sub2go" -> LET r == Cut(l, q.i, q.j) IN Out(r, 0, r)
    [] q.op = "popngo" -> IF q.i > Len(l) THEN Err(l) ELSE Out(Cut(l, 0, q.i), 0, Cut(l, 0, q.i))
RECURSIVE Printed(_)
Printed(l) == IF l = <<>> THEN <<>> ELSE Spell(l[1]) \o <<32>> \o Printed(Tail(l))
=============================================================================
