-------------------------------- MODULE Crex --------------------------------
(* CREX messages: the text of header, data and end, and how the data        *)
(* descriptors drive reading (mode "dec") or writing (mode "enc") of the    *)
(* values, one descriptor per step.                                          *)
(*                                                                           *)
(* A machine state is a record:                                              *)
(*   mode   "dec" or "enc"                                                   *)
(*   st     "run", "ok", "err" (an error must be reported), "any" (outcome   *)
(*          not prescribed) or "bad" (enc: not the prescribed text)          *)
(*   d, p   the characters of the message and the next one (from 1)          *)
(*   tab    [B, D]; desc: data descriptors                                   *)
(*   cd     check digits in use; exp: the next one                           *)
(*   stack  frames of descriptors to do                                      *)
(*   outs   dec: subsets decoded so far; enc: subsets to encode              *)
(*   sub    subset being processed; vi: enc: variables of it already done    *)
(*   back   enc: the subsets that decoding the message will give             *)
(*   w      enc: the text written, when there is none to compare it with     *)
EXTENDS Elements, FiniteSets

Space(c) == c \in 9..13 \/ c = 32
Digit(c) == c \in 48..57
AllDigits(t) == \A k \in 1..Len(t) : Digit(t[k])
B31012 == Code(0, 31, 12)

RECURSIVE SkipSpaces(_, _)
SkipSpaces(d, p) == IF p <= Len(d) /\ Space(d[p]) THEN SkipSpaces(d, p + 1) ELSE p
RECURSIVE WordEnd(_, _)
WordEnd(d, p) == IF p > Len(d) \/ Space(d[p]) THEN p ELSE WordEnd(d, p + 1)
At(d, p, t) == p + Len(t) - 1 <= Len(d) /\ SubSeq(d, p, p + Len(t) - 1) = t

RECURSIVE ToInt(_, _, _)
ToInt(t, k, acc) == IF k > Len(t) THEN acc ELSE ToInt(t, k + 1, acc * 10 + t[k] - 48)
IntOf(t) == ToInt(t, 1, 0)
\* any number of digits; beyond 2^34 it only matters that it is large
RECURSIVE ToWide(_, _, _)
ToWide(t, k, acc) == IF k > Len(t) \/ NLt(Pow2(34), acc) THEN acc
                     ELSE ToWide(t, k + 1, NAdd(NMul10(acc), N(t[k] - 48)))

CREX == <<67, 82, 69, 88, 43, 43>>
PP == <<43, 43>>
SUPP == <<83, 85, 80, 80>>
S7777 == <<55, 55, 55, 55>>
EOL == <<13, 13, 10>>

Fail == [ok |-> FALSE]
Letters == [c \in {66, 82, 67, 68} |-> CASE c = 66 -> 0 [] c = 82 -> 1 [] c = 67 -> 2 [] c = 68 -> 3]

-----------------------------------------------------------------------------
(* Section 1: [ok, h, cd, desc, p]; wild: spelled in ways that nothing       *)
(* prescribes the meaning of                                                 *)
RECURSIVE Descriptors(_, _, _, _, _)
Descriptors(d, p, desc, cd, wild) ==
  IF p > Len(d) THEN Fail
  ELSE IF d[p] \in DOMAIN Letters
  THEN IF p + 5 > Len(d) \/ ~AllDigits(SubSeq(d, p + 1, p + 5)) THEN Fail
       ELSE LET x == IntOf(SubSeq(d, p + 1, p + 2))
                y == IntOf(SubSeq(d, p + 3, p + 5))
            IN Descriptors(d, SkipSpaces(d, p + 6), Append(desc, Code(Letters[d[p]], x % 64, y % 256)), cd,
                           wild \/ x > 63 \/ y > 255)
  ELSE IF d[p] = 69 THEN Descriptors(d, SkipSpaces(d, p + 1), desc, TRUE, wild)
  ELSE IF At(d, p, PP) THEN [ok |-> TRUE, p |-> SkipSpaces(d, p + 2), desc |-> desc, cd |-> cd, wild |-> wild]
  ELSE Fail

ParseHeader(d) ==
  IF ~At(d, 1, CREX) THEN Fail ELSE
  LET t == SkipSpaces(d, 7)
      te == WordEnd(d, t)
      tw == SubSeq(d, t, te - 1)
      a == SkipSpaces(d, te)
      ae == WordEnd(d, a)
      aw == SubSeq(d, a, ae - 1)
      b == SkipSpaces(d, ae)
      wild == \E k \in t..(ae - 1) : d[k] = 0
  IN IF wild THEN [ok |-> TRUE, wild |-> TRUE]
     ELSE IF t > Len(d) \/ Len(tw) # 7 THEN Fail
     ELSE IF tw[1] # 84 \/ ~AllDigits(Tail(tw)) THEN Fail
     ELSE IF a > Len(d) \/ Len(aw) \notin {4, 7} THEN Fail
     ELSE IF aw[1] # 65 \/ ~AllDigits(Tail(aw)) THEN Fail
     ELSE LET cat == IntOf(SubSeq(aw, 2, 4))
              sub == IF Len(aw) = 7 THEN IntOf(SubSeq(aw, 5, 7)) ELSE 255
          IN IF cat > 255 \/ sub > 255 THEN Fail
             ELSE LET r == Descriptors(d, b, <<>>, FALSE, FALSE)
                  IN IF ~r.ok THEN Fail
                     ELSE [ok |-> TRUE, wild |-> r.wild, p |-> r.p, desc |-> r.desc, cd |-> r.cd,
                           h |-> [mt |-> IntOf(SubSeq(tw, 2, 3)), ed |-> IntOf(SubSeq(tw, 4, 5)), mtv |-> IntOf(SubSeq(tw, 6, 7)),
                                  cat |-> cat, sub |-> sub, lsub |-> IF Len(aw) = 7 THEN 255 ELSE 0]]

-----------------------------------------------------------------------------
(* Fields                                                                    *)
RECURSIVE TrimSpaces(_)
TrimSpaces(t) == IF t # <<>> /\ Space(t[Len(t)]) THEN TrimSpaces(SubSeq(t, 1, Len(t) - 1)) ELSE t
Slashes(n) == [k \in 1..n |-> 47]
Zeros(n) == [k \in 1..n |-> 48]
Blanks(n) == [k \in 1..n |-> 32]

\* the next field, without its check digit: [ok, t, s]
Field(s, len, signed) ==
  IF s.cd /\ (s.p > Len(s.d) \/ s.d[IF s.p > Len(s.d) THEN 1 ELSE s.p] # 48 + s.exp) THEN Fail
  ELSE LET p == IF s.cd THEN s.p + 1 ELSE s.p
           n == IF signed /\ p <= Len(s.d) /\ s.d[IF p > Len(s.d) THEN 1 ELSE p] = 45 THEN len + 1 ELSE len
       IN IF p + n - 1 > Len(s.d) THEN Fail
          ELSE [ok |-> TRUE, t |-> TrimSpaces(SubSeq(s.d, p, p + n - 1)),
                s |-> [s EXCEPT !.p = SkipSpaces(s.d, p + n), !.exp = IF s.cd THEN (@ + 1) % 10 ELSE @]]

\* an optional minus sign and digits
Number(i, t) ==
  LET neg == t # <<>> /\ t[1] = 45
      ds == IF neg THEN Tail(t) ELSE t
      v == ToWide(ds, 1, Zero)
  IN IF ds = <<>> THEN Fail
     ELSE IF ~AllDigits(ds) THEN Fail
     ELSE IF ~InRange(i, IF neg THEN NNeg(v) ELSE v) THEN Fail
     ELSE [ok |-> TRUE, var |-> VarN(i, IF neg THEN NNeg(v) ELSE v)]

Value(i, t) ==
  IF t # <<>> /\ t = Slashes(i.len) THEN [ok |-> TRUE, var |-> Var0(i)]
  ELSE IF i.y = "s" THEN [ok |-> TRUE, var |-> VarT(i, CutNul(t, 1))]
  ELSE Number(i, t)

\* decimal digits of a wide number >= 0, at least one
RECURSIVE Decimal(_)
Decimal(v) == LET r == (v[1] % 10) * 65536 + v[2]
                  q == <<v[1] \div 10, r \div 10>>
              IN IF q = Zero THEN <<48 + (r % 10)>> ELSE Append(Decimal(q), 48 + (r % 10))
Padded(n, t) == IF Len(t) < n THEN Zeros(n - Len(t)) \o t ELSE t
Dec(n, v) == Padded(n, Decimal(N(v)))

\* the text of variable v under descriptor i: [ok, t, back]
Write(s, i, v) ==
  IF v.set = 0 THEN [ok |-> TRUE, t |-> Slashes(i.len), back |-> Var0(i)]
  ELSE IF v.c # i.c \/ v.y # i.y \/ v.sc # i.sc THEN [ok |-> TRUE, any |-> TRUE]
  ELSE IF i.y = "s"
  THEN IF Len(v.tx) > i.len THEN Fail
       ELSE LET t == v.tx \o Blanks(i.len - Len(v.tx))
            IN IF t = Slashes(i.len) \/ (~s.cd /\ Space(t[1])) THEN Fail
               ELSE [ok |-> TRUE, t |-> t, back |-> VarT(i, TrimSpaces(v.tx))]
  ELSE LET t == Padded(i.len, Decimal(NAbs(v.v)))
       IN IF Len(t) # i.len THEN Fail
          ELSE [ok |-> TRUE, t |-> IF NIsNeg(v.v) THEN <<45>> \o t ELSE t, back |-> v]

Err(s) == [s EXCEPT !.st = "err"]
Open(s) == [s EXCEPT !.st = "any"]
\* with no text to compare with, the text is kept
Emit(s, t) == IF s.d = <<>> THEN [s EXCEPT !.p = @ + Len(t), !.w = @ \o t]
              ELSE IF At(s.d, s.p, t) THEN [s EXCEPT !.p = @ + Len(t)] ELSE [s EXCEPT !.st = "bad"]
EmitField(s, w) ==
  IF ~w.ok THEN Err(s)
  ELSE IF "any" \in DOMAIN w THEN Open(s)
  ELSE LET s1 == Emit(s, <<32>> \o (IF s.cd THEN <<48 + s.exp>> ELSE <<>>) \o w.t)
       IN [s1 EXCEPT !.exp = IF s.cd THEN (@ + 1) % 10 ELSE @, !.back[s.sub] = Append(@, w.back), !.vi = @ + 1]

-----------------------------------------------------------------------------
(* Descriptors                                                               *)
Top(s) == s.stack[Len(s.stack)]
Ops(s) == Top(s).ops
Cur(s) == Head(Ops(s))
SetOps(s, ops) == [s EXCEPT !.stack[Len(s.stack)].ops = ops]
\* top: descriptors that come from the message rather than from a table D sequence
Push(s, body, times, top) == [s EXCEPT !.stack = Append(@, [ops |-> body, body |-> body, left |-> times - 1, top |-> top])]
Running(s) == s.st = "run" /\ s.stack # <<>>
AtOp(s) == Running(s) /\ Ops(s) # <<>>

HasVar(s) == s.vi < Len(s.outs[s.sub])
NextVar(s) == s.outs[s.sub][s.vi + 1]
Store(s, v) == [s EXCEPT !.outs[s.sub] = Append(@, v)]

IsElement(s) == AtOp(s) /\ F(Cur(s)) = 0
Element(s0) ==
  LET c == Cur(s0)
      s == SetOps(s0, Tail(Ops(s0)))
  IN IF ~Has(s.tab, c) THEN Err(s)
     ELSE LET i == Entry(s.tab, c) IN
          IF s.mode = "dec"
          THEN LET f == Field(s, i.len, i.y # "s") IN
               IF ~f.ok THEN Err(s)
               ELSE LET r == Value(i, f.t) IN IF r.ok THEN Store(f.s, r.var) ELSE Err(s)
          ELSE IF ~HasVar(s) THEN Err(s)
          ELSE EmitField(s, Write(s, i, NextVar(s)))

\* delayed replication factors are four digits; without a descriptor of theirs they are B31012
Factor(s, i) ==
  IF s.mode = "dec"
  THEN LET f == Field(s, 4, FALSE) IN
       IF ~f.ok THEN [s |-> Err(s)]
       ELSE IF f.t = <<>> THEN [s |-> Err(s)]
       ELSE IF ~AllDigits(f.t) THEN [s |-> Err(s)]
       ELSE LET r == Number(i, f.t) IN IF ~r.ok THEN [s |-> Err(s)] ELSE [s |-> Store(f.s, r.var), n |-> NInt(r.var.v)]
  ELSE IF ~HasVar(s) THEN [s |-> Err(s)]
  ELSE LET v == NextVar(s) IN
       IF v.c # i.c THEN [s |-> Open(s)]
       ELSE IF v.set = 0 \/ ~Numeric(v) THEN [s |-> Err(s)]
       ELSE IF NIsNeg(v.v) \/ NLt(N(9999), v.v) THEN [s |-> Err(s)]
       ELSE IF v.sc # 0 THEN [s |-> Open(s)]
       ELSE [s |-> EmitField(s, [ok |-> TRUE, t |-> Dec(4, NInt(v.v)), back |-> v]), n |-> NInt(v.v)]

IsReplication(s) == AtOp(s) /\ F(Cur(s)) = 1
Replication(s0) ==
  LET c == Cur(s0)
      rest == Tail(Ops(s0))
      delayed == Y(c) = 0
      explicit == delayed /\ rest # <<>> /\ F(Head(rest)) = 0 /\ X(Head(rest)) = 31
      dcode == IF explicit THEN Head(rest) ELSE B31012
      rest2 == IF explicit THEN Tail(rest) ELSE rest
      n == X(c)
  IN IF Len(rest2) < n THEN Err(s0)
     ELSE LET body == SubSeq(rest2, 1, n)
              s == SetOps(s0, SubSeq(rest2, n + 1, Len(rest2)))
          IN IF ~delayed THEN Push(s, body, Y(c), Top(s).top)
             ELSE IF ~Has(s.tab, dcode) THEN Err(s)
             ELSE LET f == Factor(s, Entry(s.tab, dcode))
                      \* descriptors of factors at the top are not written in the message
                      g == IF s.mode = "enc" /\ f.s.st = "run" /\ explicit /\ Top(s).top
                              /\ ~(rest2 # <<>> /\ F(Head(rest2)) = 0 /\ X(Head(rest2)) = 31) /\ Has(s.tab, B31012)
                           THEN [f.s EXCEPT !.back[s.sub][Len(f.s.back[s.sub])] = VarN(Entry(s.tab, B31012), N(f.n))]
                           ELSE f.s
                  IN IF f.s.st # "run" THEN f.s
                     ELSE IF f.n = 0 THEN g
                     ELSE Push(g, body, f.n, Top(s).top)

\* operators have no prescribed effect on CREX data
IsOperator(s) == AtOp(s) /\ F(Cur(s)) = 2
Operator(s) == Open(s)

IsSequence(s) == AtOp(s) /\ F(Cur(s)) = 3
Sequence(s0) ==
  LET s == SetOps(s0, Tail(Ops(s0)))
  IN IF ~HasD(s.tab, Cur(s0)) THEN Err(s) ELSE Push(s, Expansion(s.tab, Cur(s0)), 1, FALSE)

IsReturn(s) == Running(s) /\ Ops(s) = <<>>
Return(s) ==
  LET t == Top(s) IN
  IF t.left > 0 THEN [s EXCEPT !.stack[Len(s.stack)] = [t EXCEPT !.ops = t.body, !.left = @ - 1]]
  ELSE [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

Start(s) == [s EXCEPT !.stack = <<[ops |-> s.desc, body |-> s.desc, left |-> 0, top |-> TRUE]>>, !.vi = 0]

\* position of the first "++" from p on, or 0
RECURSIVE FindPP(_, _)
FindPP(d, p) == IF p + 1 > Len(d) THEN 0 ELSE IF At(d, p, PP) THEN p ELSE FindPP(d, p + 1)

\* an optional section, then 7777
Ending(s) ==
  LET q == FindPP(s.d, s.p + 4)
      e == IF At(s.d, s.p, SUPP) THEN IF q = 0 THEN 0 ELSE SkipSpaces(s.d, q + 2) ELSE s.p
  IN IF e = 0 THEN Err(s)
     ELSE IF At(s.d, e, S7777) THEN [s EXCEPT !.st = "ok"] ELSE Err(s)

IsEndSubset(s) == s.st = "run" /\ s.stack = <<>>
EndSubset(s) ==
  IF s.mode = "dec"
  THEN LET p == SkipSpaces(s.d, s.p) IN
       IF p + 1 > Len(s.d) \/ ~At(s.d, p, <<43>>) THEN Err(s)
       ELSE IF s.d[p + 1] = 43 THEN Ending([s EXCEPT !.p = SkipSpaces(s.d, p + 2)])
       ELSE Start([s EXCEPT !.p = SkipSpaces(s.d, p + 1), !.sub = @ + 1, !.outs = Append(@, <<>>)])
  ELSE IF s.sub < Len(s.outs)
  THEN LET e == Emit(s, <<43>> \o EOL) IN IF e.st # "run" THEN e ELSE Start([e EXCEPT !.sub = @ + 1, !.back = Append(@, <<>>)])
  ELSE LET e == Emit(s, PP \o EOL \o S7777 \o EOL)
       IN IF e.st # "run" THEN e
          ELSE IF s.d # <<>> /\ e.p # Len(s.d) + 1 THEN [e EXCEPT !.st = "bad"] ELSE [e EXCEPT !.st = "ok"]

Machine(mode, d, p, tab, desc, cd, outs) ==
  Start([mode |-> mode, st |-> "run", d |-> d, p |-> p, tab |-> tab, desc |-> desc, cd |-> cd, exp |-> 1,
         stack |-> <<>>, outs |-> outs, sub |-> 1, vi |-> 0, back |-> <<<<>>>>, w |-> <<>>])

\* data must follow the header
DecodeMachine(d, hd, tab) == IF hd.p > Len(d) THEN [st |-> "err"]
                             ELSE Machine("dec", d, hd.p, tab, hd.desc, hd.cd, <<<<>>>>)

-----------------------------------------------------------------------------
(* The header as it is written                                               *)
\* data descriptors without those of delayed replication factors, that do not count in replications either
Class31(desc) == desc # <<>> /\ F(Head(desc)) = 0 /\ X(Head(desc)) = 31
RECURSIVE Listed(_)
Listed(desc) ==
  IF desc = <<>> THEN <<>>
  ELSE IF F(Head(desc)) # 1 THEN <<Head(desc)>> \o Listed(Tail(desc))
  ELSE LET rest == Tail(desc)
           explicit == Y(Head(desc)) = 0 /\ Class31(rest)
           what == IF explicit THEN Tail(rest) ELSE rest
           n == IF X(Head(desc)) < Len(what) THEN X(Head(desc)) ELSE Len(what)
           inner == Listed(SubSeq(what, 1, n))
           \* otherwise what follows would be taken for it
           factor == IF explicit /\ Class31(what) THEN <<Head(rest)>> ELSE <<>>
       IN <<Head(desc) - 256 * (n - Len(inner))>> \o factor \o inner \o Listed(SubSeq(what, n + 1, Len(what)))

RECURSIVE Named(_, _)
Named(desc, k) ==
  IF k > Len(desc) THEN <<>>
  ELSE <<32, <<66, 82, 67, 68>>[F(desc[k]) + 1]>> \o Dec(2, X(desc[k])) \o Dec(3, Y(desc[k])) \o Named(desc, k + 1)

HeaderFits(h) == h.mt <= 99 /\ h.ed <= 99 /\ h.mtv <= 99
HeaderText(h, desc, cd) ==
  CREX \o EOL \o <<84>> \o Dec(2, h.mt) \o Dec(2, h.ed) \o Dec(2, h.mtv) \o <<32, 65>> \o Dec(3, h.cat)
  \o (IF h.sub = 255 THEN <<>> ELSE Dec(3, h.sub))
  \o Named(Listed(desc), 1) \o (IF cd THEN <<32, 69>> ELSE IF desc = <<>> THEN <<32>> ELSE <<>>) \o PP \o EOL

\* messages have an A table indicator that tells whether there is a subcategory
StoredHeader(h) == [h EXCEPT !.lsub = IF h.sub = 255 THEN 0 ELSE 255]

EncodeMachine(d, h, tab, desc, cd, outs) ==
  IF ~HeaderFits(h) \/ outs = <<>> THEN [st |-> "err"]
  ELSE LET t == HeaderText(h, desc, cd)
       IN IF d # <<>> /\ ~At(d, 1, t) THEN [st |-> "bad"]
          ELSE [Machine("enc", d, Len(t) + 1, tab, desc, cd, outs) EXCEPT !.w = t]
=============================================================================
