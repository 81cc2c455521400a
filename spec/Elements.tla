------------------------------ MODULE Elements ------------------------------
(* Descriptor codes, element descriptors, and variables with attributes: the *)
(* vocabulary shared by all the other modules.                                *)
EXTENDS Num, TLC

F(c) == c \div 16384
X(c) == (c \div 256) % 64
Y(c) == c % 256
Code(f, x, y) == f * 16384 + x * 256 + y

Has(tab, c) == ToString(c) \in DOMAIN tab.B
Entry(tab, c) == tab.B[ToString(c)]
HasD(tab, c) == ToString(c) \in DOMAIN tab.D
Expansion(tab, c) == tab.D[ToString(c)]

-----------------------------------------------------------------------------
(* Element descriptors: [c, y, sc, rf, bl, len, u]; y: type "i" integer,    *)
(* "d" decimal, "s" string, "b" binary; u: "n" plain, "c" code or flag      *)
(* table, "s" text; rf is wide.                                             *)

Digits(bits) == (bits * 30103) \div 100000 + 1

Numeric(i) == i.y \in {"i", "d"}

\* effective range of the scaled integer
Range(i) ==
  IF i.len >= 10 THEN [lo |-> IntMin, hi |-> IntMax]
  ELSE LET dlo == NNeg(NSub(Pow10(i.len), N(1)))
           dhi == NSub(Pow10(i.len), N(2))
       IN IF i.bl = 0 THEN [lo |-> dlo, hi |-> dhi]
          ELSE LET bhi == NAdd(Pow2(i.bl), i.rf)
                   bhi2 == IF X(i.c) = 31 THEN bhi ELSE NSub(bhi, N(2))
               IN [lo |-> NMax(i.rf, dlo), hi |-> NMin(bhi2, dhi)]

InRange(i, v) == LET r == Range(i) IN NLe(r.lo, v) /\ NLe(v, r.hi)

Refused == [bad |-> TRUE]
Altered(i, sc, bl, rf) ==
  IF sc = i.sc /\ bl = i.bl /\ rf = i.rf THEN i
  ELSE IF Numeric(i)
  THEN IF sc < -16 \/ sc > 16 \/ bl < 1 \/ bl > 32 THEN Refused
       ELSE [i EXCEPT !.sc = sc, !.bl = bl, !.rf = rf, !.len = Digits(bl),
                      !.y = IF sc = 0 THEN "i" ELSE "d"]
  ELSE [i EXCEPT !.sc = sc, !.bl = bl, !.rf = rf, !.len = bl \div 8]

-----------------------------------------------------------------------------
(* Variables: [c, y, sc, bl, rf, set, v, tx, at]                            *)

Var0(i) == [c |-> i.c, y |-> i.y, sc |-> i.sc, bl |-> i.bl, rf |-> i.rf,
            set |-> 0, v |-> Zero, tx |-> <<>>, at |-> <<>>]
VarN(i, v) == [Var0(i) EXCEPT !.set = 1, !.v = v]
VarT(i, tx) == [Var0(i) EXCEPT !.set = 1, !.tx = tx]

\* attributes stay sorted by code, one per code, and have no attributes
RECURSIVE InsertAttr(_, _)
InsertAttr(at, a) ==
  IF at = <<>> THEN <<a>>
  ELSE IF Head(at).c < a.c THEN <<Head(at)>> \o InsertAttr(Tail(at), a)
  ELSE IF Head(at).c = a.c THEN <<a>> \o Tail(at)
  ELSE <<a>> \o at
SetAttr(v, a) == [v EXCEPT !.at = InsertAttr(@, [a EXCEPT !.at = <<>>])]

RECURSIVE FindAttr(_, _)
FindAttr(at, c) == IF at = <<>> THEN [found |-> FALSE]
                   ELSE IF Head(at).c = c THEN [found |-> TRUE, a |-> Head(at)]
                   ELSE FindAttr(Tail(at), c)

\* variables without a table entry: bitmaps and character data
TextVar(c, n, tx) == [c |-> c, y |-> "s", sc |-> 0, bl |-> 8 * n, rf |-> Zero,
                      set |-> 1, v |-> Zero, tx |-> tx, at |-> <<>>]

Blank(b) == b \in {0, 9, 10, 11, 12, 13, 32}
RECURSIVE TrimRight(_)
TrimRight(t) == IF Len(t) > 1 /\ Blank(t[Len(t)]) THEN TrimRight(SubSeq(t, 1, Len(t) - 1)) ELSE t
RECURSIVE CutNul(_, _)
CutNul(t, k) == IF k > Len(t) THEN t ELSE IF t[k] = 0 THEN SubSeq(t, 1, k - 1) ELSE CutNul(t, k + 1)
AllMissing(t) == \A k \in 1..Len(t) : t[k] \in {0, 255}

=============================================================================
