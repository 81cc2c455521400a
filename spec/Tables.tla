------------------------------- MODULE Tables -------------------------------
(* Table files: what the lines of B and D tables say, how a table is chosen *)
(* among those installed, and how element descriptors are altered.          *)
(* Text is a sequence of bytes; columns are numbered from 0, as in the      *)
(* documentation of the files.                                              *)
EXTENDS Elements, FiniteSets

Bad == [bad |-> TRUE]
IsBad(r) == "bad" \in DOMAIN r
At(l, k) == l[k + 1]
Cols(l, a, b) == SubSeq(l, a + 1, b)                 \* columns a to b - 1
Digit(b) == b >= 48 /\ b <= 57
Space(b) == b \in {9, 10, 11, 12, 13, 32}
RECURSIVE Trim(_)
Trim(t) == IF t # <<>> /\ Space(t[Len(t)]) THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
Starts(t, u) == Len(t) >= Len(u) /\ SubSeq(t, 1, Len(u)) = u
Bytes(t) == t

\* the number at column k and after: blanks, minus sign, blanks, digits
RECURSIVE SkipSpaces(_, _)
SkipSpaces(l, k) == IF k < Len(l) /\ Space(At(l, k)) THEN SkipSpaces(l, k + 1) ELSE k
RECURSIVE EndDigits(_, _)
EndDigits(l, k) == IF k < Len(l) /\ Digit(At(l, k)) THEN EndDigits(l, k + 1) ELSE k
RECURSIVE Value(_, _, _, _)
Value(l, a, b, v) == IF a = b THEN v ELSE Value(l, a + 1, b, NAdd(NMul10(v), N(At(l, a) - 48)))
Number(l, k) ==
  LET a == SkipSpaces(l, k)
      neg == a < Len(l) /\ At(l, a) = 45
      d == IF neg THEN SkipSpaces(l, a + 1) ELSE a
      v == Value(l, d, EndDigits(l, d), Zero)
  IN IF neg THEN NNeg(v) ELSE v

Five(l, k) == \A i \in 0..4 : k + i < Len(l) /\ Digit(At(l, k + i))
XY(l, k) == ((At(l, k) - 48) * 10 + (At(l, k + 1) - 48)) * 256
            + (At(l, k + 2) - 48) * 100 + (At(l, k + 3) - 48) * 10 + (At(l, k + 4) - 48)

\* a descriptor as text at column k
Letters == <<66, 82, 67, 68>>                        \* B R C D
FOf(b) == IF b \in 48..51 THEN b - 48 ELSE IF \E i \in 1..4 : Letters[i] = b THEN (CHOOSE i \in 1..4 : Letters[i] = b) - 1 ELSE -1
Descriptor(l, k) == IF k >= Len(l) \/ FOf(At(l, k)) = -1 \/ ~Five(l, k + 1) THEN Bad
                    ELSE [c |-> FOf(At(l, k)) * 16384 + XY(l, k + 1)]

-----------------------------------------------------------------------------
(* B tables. Entries: [c, y, sc, rf, bl, len, un, ds]                        *)
CODETABLE == <<67, 79, 68, 69, 32, 84, 65, 66, 76, 69>>
FLAGTABLE == <<70, 76, 65, 71, 32, 84, 65, 66, 76, 69>>
NoBlank(t) == SubSeq(t, 1, 4) \o SubSeq(t, 6, 10)
CCITTIA5 == <<67, 67, 73, 84, 84, 73, 65, 53>>
CHARACTER == <<67, 72, 65, 82, 65, 67, 84, 69, 82>>
Unit(t) == IF Starts(t, CODETABLE) \/ Starts(t, NoBlank(CODETABLE)) THEN CODETABLE
           ELSE IF Starts(t, FLAGTABLE) \/ Starts(t, NoBlank(FLAGTABLE)) THEN FLAGTABLE ELSE t

\* decimal digits of 2^bits
DigitsOf(bits) == IF bits = 1 THEN 1 ELSE (bits * 30103 + 99999) \div 100000

\* lines include their end of line
BufrLine(l) ==
  IF Len(l) < 119 \/ ~Five(l, 2) THEN Bad
  ELSE LET un == Unit(Trim(Cols(l, 73, 96)))
           sc == NInt(Number(l, 98))
           bl == NInt(Number(l, 115))
           text == un = CCITTIA5
       IN [c |-> XY(l, 2), ds |-> Trim(Cols(l, 8, 71)), un |-> un, sc |-> sc, rf |-> Number(l, 102), bl |-> bl,
           y |-> IF text THEN "s" ELSE IF sc # 0 THEN "d" ELSE "i",
           len |-> IF text THEN bl \div 8 ELSE DigitsOf(bl)]

Nothing == [none |-> TRUE]
CrexLine(l) ==
  IF ~Five(l, 2) THEN Bad
  ELSE IF Len(l) < 157 THEN IF X(XY(l, 2)) = 31 THEN Nothing ELSE Bad
  ELSE LET un == Unit(Trim(Cols(l, 119, 142)))
           sc == NInt(Number(l, 143))
       IN [c |-> XY(l, 2), ds |-> Trim(Cols(l, 8, 71)), un |-> un, sc |-> sc, rf |-> Zero, bl |-> 0,
           y |-> IF un = CHARACTER THEN "s" ELSE IF sc # 0 THEN "d" ELSE "i",
           len |-> NInt(Number(l, 149))]

BLine(kind, l) == IF kind = "b" THEN BufrLine(l) ELSE CrexLine(l)

\* an entry with what follows from it
Full(e) == [c |-> e.c, y |-> e.y, ds |-> e.ds, un |-> e.un, sc |-> e.sc, rf |-> e.rf, bl |-> e.bl, len |-> e.len,
            lo |-> IF Numeric(e) THEN Range(e).lo ELSE Zero, hi |-> IF Numeric(e) THEN Range(e).hi ELSE Zero,
            dlo |-> IF Numeric(e) THEN Range(e).lo ELSE Zero, dhi |-> IF Numeric(e) THEN Range(e).hi ELSE Zero]

-----------------------------------------------------------------------------
(* D tables: [st, cur, want, exp]: the sequence being read, how many         *)
(* descriptors it has, and the sequences read so far, for each code the set  *)
(* of those listed for it                                                    *)
DStart == [st |-> "empty", c |-> 0, cur |-> <<>>, want |-> 0, exp |-> <<>>]
Put(exp, c, s) == LET k == ToString(c) IN
  TLCEval([x \in DOMAIN exp \cup {k} |-> IF x = k THEN (IF k \in DOMAIN exp THEN exp[k] ELSE {}) \cup {s} ELSE exp[x]])
Eleven == [i \in 1..11 |-> 32]
Closed(t) == IF t.st = "empty" THEN t
             ELSE IF Len(t.cur) # t.want THEN Bad
             ELSE [t EXCEPT !.exp = Put(@, t.c, t.cur)]
DLine(t, l) ==
  IF Len(l) < 18 THEN Bad
  ELSE IF At(l, 1) \in {51, 68}
  THEN LET k == SkipSpaces(l, 7)
           e == EndDigits(l, k)
           n == NInt(Value(l, k, e, Zero))
           d == Descriptor(l, 1)
           f == Descriptor(l, SkipSpaces(l, e))
           u == Closed(t)
       IN IF IsBad(u) \/ IsBad(d) \/ IsBad(f) \/ n < 1 THEN Bad
          ELSE [st |-> "some", c |-> d.c, cur |-> <<f.c>>, want |-> n, exp |-> u.exp]
  ELSE IF Starts(l, Eleven)
  THEN LET f == Descriptor(l, 11)
       IN IF IsBad(f) \/ t.st = "empty" \/ Len(t.cur) = t.want THEN Bad
          ELSE [t EXCEPT !.cur = Append(@, f.c)]
  ELSE Bad
DEnd(t) == IF t.st = "empty" THEN Bad ELSE Closed(t)

-----------------------------------------------------------------------------
(* Choosing a table. Installed: a sequence, in the order of the directories, *)
(* of [k, dir, ed, mt, mtv, ce, sc, lv, bv]; k: "b" BUFR, "c" CREX; bv is the *)
(* version of the BUFR table that a CREX table corresponds to.               *)
(* Wanted: [k, ed, mt, mtv, ce, sc, lv, bv]                                  *)

Acceptable(w, t) ==
  /\ t.mt = w.mt
  /\ IF w.k = "b" THEN t.k = "b" /\ t.mtv >= w.mtv
     ELSE IF t.k = "b" THEN t.mtv >= w.bv
     ELSE t.ed = w.ed /\ t.mtv >= w.mtv /\ t.bv >= w.bv

CentreRank(w, t) == IF t.ce = w.ce THEN 0 ELSE IF t.ce = 0 THEN 1 ELSE IF t.ce = 65535 THEN 2 ELSE 3
\* local versions that are at least what is wanted, nearest first; then the others, nearest first
LocalRank(w, t) == IF t.lv >= w.lv THEN t.lv - w.lv ELSE 1000 + (w.lv - t.lv)
\* what only counts when the centre is the one wanted
Fine(w, t) == IF CentreRank(w, t) = 0 THEN <<LocalRank(w, t), IF t.sc = w.sc THEN 0 ELSE 1>> ELSE <<0, 0>>
RankB(w, t) == <<t.mtv, CentreRank(w, t)>> \o Fine(w, t)
RankC(w, t) == <<t.mtv, t.bv, CentreRank(w, t)>> \o Fine(w, t)
RankBC(w, t) == <<IF t.k = "b" THEN t.mtv ELSE t.bv, CentreRank(w, t)>> \o Fine(w, t)

RECURSIVE Less(_, _)
Less(a, b) == a # <<>> /\ (Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Less(Tail(a), Tail(b))))
Closest(w, inst, S, Rank(_, _)) == {i \in S : ~\E j \in S : Less(Rank(w, inst[j]), Rank(w, inst[i]))}
FirstDir(inst, S) == {i \in S : \A j \in S : inst[i].dir <= inst[j].dir}

\* positions of the tables that may be chosen: those in the first directory among the closest ones
Choice(w, inst) ==
  LET A == {i \in 1..Len(inst) : Acceptable(w, inst[i])}
      B == FirstDir(inst, Closest(w, inst, {i \in A : inst[i].k = "b"}, RankB))
      C == FirstDir(inst, Closest(w, inst, {i \in A : inst[i].k = "c"}, RankC))
  IN IF B = {} THEN C ELSE IF C = {} THEN B
     ELSE LET b == CHOOSE i \in B : TRUE
              c == CHOOSE i \in C : TRUE
          IN IF Less(RankBC(w, inst[c]), RankBC(w, inst[b])) THEN C ELSE B

-----------------------------------------------------------------------------
(* Descriptors handed out: asking for an entry, plain or altered             *)
Asked(tab, q) ==
  IF ~Has(tab, q.c) THEN Bad
  ELSE IF q.op = "q" THEN Full(Entry(tab, q.c))
  ELSE LET a == Altered(Entry(tab, q.c), q.sc, q.bl, q.rf) IN IF IsBad(a) THEN Bad ELSE Full(a)
=============================================================================
