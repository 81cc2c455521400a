-------------------------------- MODULE Var ---------------------------------
(* Histories of variables. The state is a sequence of slots, each holding a  *)
(* variable                                                                  *)
(*   [c, y, sc, bl, rf, len, un, set, v, tx, at]                             *)
(* or None. One operation of the public API is one step: Outcomes(s, o) is   *)
(* the set of [s, r] (slots afterwards, result) that operation o may give in *)
(* state s. It is a singleton, but for the rounding of values that are half  *)
(* way between two representable ones.                                       *)
(*                                                                           *)
(* Results: [st, cls, n, m, e, tx, b, at, hk]; st "ok" or "err"; cls         *)
(* "domain" or "other"; hk: how many times the hook was called.              *)
EXTENDS Elements

None == [c |-> -1]

-----------------------------------------------------------------------------
(* Exact arithmetic on decimal numbers [k, m, e]: k "n" for m * 10^e, else   *)
(* "nan", "inf" or "-inf"                                                    *)

\* division of a non negative wide number by 10
NDiv10(a) == <<a[1] \div 10, ((a[1] % 10) * 65536 + a[2]) \div 10>>
NMod10(a) == ((a[1] % 10) * 65536 + a[2]) % 10

Huge(a) == NLt(N(1000000000), NDiv10(NDiv10(NDiv10(a))))      \* >= 10^12
RECURSIVE SatScale(_, _)
SatScale(a, k) == IF k = 0 \/ a = Zero \/ Huge(a) THEN a ELSE SatScale(NMul10(a), k - 1)

\* fr: the part of a unit left over: 0 none, 1 less than half, 2 half, 3 more
RECURSIVE DropDigits(_, _, _)
DropDigits(a, k, fr) ==
  IF k = 0 THEN [q |-> a, fr |-> fr]
  ELSE IF a = Zero /\ fr \in {0, 1} THEN [q |-> a, fr |-> fr]
  ELSE LET d == NMod10(a)
       IN DropDigits(NDiv10(a), k - 1,
            IF d = 0 THEN (IF fr = 0 THEN 0 ELSE 1)
            ELSE IF d < 5 THEN 1
            ELSE IF d = 5 THEN (IF fr = 0 THEN 2 ELSE 3)
            ELSE 3)

\* d * 10^sc as sign, integer part and left over
Scaled(d, sc) ==
  LET k == d.e + sc
      a == NAbs(d.m)
      r == IF k >= 0 THEN [q |-> SatScale(a, k), fr |-> 0] ELSE DropDigits(a, -k, 0)
  IN [neg |-> NIsNeg(d.m), q |-> r.q, fr |-> r.fr]

Signed(x, q) == IF x.neg THEN NNeg(q) ELSE q
Up(x) == NAdd(x.q, N(1))
\* the integers nearest to x
Nearest(x) == IF x.fr \in {0, 1} THEN {Signed(x, x.q)}
              ELSE IF x.fr = 3 THEN {Signed(x, Up(x))}
              ELSE {Signed(x, x.q), Signed(x, Up(x))}
Floor(x) == IF x.neg THEN NNeg(IF x.fr = 0 THEN x.q ELSE Up(x)) ELSE x.q
XLt(x, l) == NLt(Floor(x), l)
XGt(x, l) == NLt(l, Floor(x)) \/ (Floor(x) = l /\ x.fr # 0)

\* m * 10^e with no trailing zeros in m
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = Zero THEN [m |-> Zero, e |-> 0]
              ELSE IF NMod10(NAbs(m)) = 0 THEN Norm(IF NIsNeg(m) THEN NNeg(NDiv10(NAbs(m))) ELSE NDiv10(m), e + 1)
              ELSE [m |-> m, e |-> e]
ValueOf(v) == Norm(v.v, -v.sc)
Decimal(v) == [k |-> "n", m |-> v.v, e |-> -v.sc]

\* decimal text of an integer
RECURSIVE DigitsOf(_)
DigitsOf(a) == IF NLt(a, N(10)) THEN <<48 + a[2]>> ELSE Append(DigitsOf(NDiv10(a)), 48 + NMod10(a))
IntText(v) == IF NIsNeg(v) THEN <<45>> \o DigitsOf(NAbs(v)) ELSE DigitsOf(v)

RECURSIVE Rep(_, _)
Rep(b, n) == IF n <= 0 THEN <<>> ELSE <<b>> \o Rep(b, n - 1)
\* text of a number with all the decimals of its scale
FixedText(v, sc) ==
  IF sc <= 0 THEN IF v = Zero THEN <<48>> ELSE IntText(v) \o Rep(48, -sc)
  ELSE LET d0 == DigitsOf(NAbs(v))
           d == Rep(48, sc + 1 - Len(d0)) \o d0
           k == Len(d) - sc
       IN (IF NIsNeg(v) THEN <<45>> ELSE <<>>) \o SubSeq(d, 1, k) \o <<46>> \o SubSeq(d, k + 1, Len(d))
\* larger numbers are not exact in floating point
ExactText(i) == i.sc >= -6

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE HexText(_)
HexText(t) == IF t = <<>> THEN <<>> ELSE <<HexDigit(Head(t) \div 16), HexDigit(Head(t) % 16)>> \o HexText(Tail(t))

-----------------------------------------------------------------------------
(* Values                                                                    *)

Take(t, n) == IF Len(t) <= n THEN t ELSE SubSeq(t, 1, n)
Unset(v) == [v EXCEPT !.set = 0, !.v = Zero, !.tx = <<>>]
SetN(v, n) == [v EXCEPT !.set = 1, !.v = n, !.tx = <<>>]
SetT(v, t) == [v EXCEPT !.set = 1, !.v = Zero, !.tx = t]

\* text: up to the first NUL, no longer than the field
StoreText(v, t) == SetT(v, CutNul(Take(t, v.len), 1))
\* binary: exactly the width of the field, the last bits masked
StoreBinary(v, t) ==
  LET n == v.len
      b == IF Len(t) >= n THEN SubSeq(t, 1, n) ELSE t \o Rep(0, n - Len(t))
  IN SetT(v, IF v.bl % 8 = 0 \/ Len(t) < n THEN b
             ELSE [b EXCEPT ![n] = @ % P2[v.bl % 8]])

OK(v) == [v |-> v, st |-> "ok", cls |-> "", hk |-> 0]
Err(v, c) == [v |-> v, st |-> "err", cls |-> c, hk |-> 0]

\* an out of range number: p is the policy in effect [sil, cla, hook], lim the nearest limit
Refuse(v, p, nan, lim) ==
  IF p.sil = 1 THEN OK(Unset(v))
  ELSE IF p.cla = 1 /\ ~nan THEN OK(SetN(v, lim))
  ELSE CASE p.hook = "keep" -> [OK(v) EXCEPT !.hk = 1]
         [] p.hook = "unset" -> [OK(Unset(v)) EXCEPT !.hk = 1]
         [] p.hook = "low" -> [OK(SetN(v, Range(v).lo)) EXCEPT !.hk = 1]
         [] OTHER -> Err(Unset(v), "domain")

StoreInt(v, n, p) ==
  IF ~Numeric(v) THEN Err(v, "other")
  ELSE LET r == Range(v)
       IN IF NLt(n, r.lo) THEN Refuse(v, p, FALSE, r.lo)
          ELSE IF NLt(r.hi, n) THEN Refuse(v, p, FALSE, r.hi)
          ELSE OK(SetN(v, n))

\* integers are rounded first; decimals have to be within the limits as they are
StoreDecimal(v, d, p) ==
  IF ~Numeric(v) THEN {Err(v, "other")}
  ELSE LET r == Range(v)
       IN CASE d.k = "nan" -> {Refuse(v, p, TRUE, r.lo)}
            [] d.k = "inf" -> {Refuse(v, p, FALSE, r.hi)}
            [] d.k = "-inf" -> {Refuse(v, p, FALSE, r.lo)}
            [] OTHER ->
               LET x == Scaled(d, v.sc)
               IN IF v.y = "i" THEN {StoreInt(v, n, p) : n \in Nearest(x)}
                  ELSE IF XLt(x, r.lo) THEN {Refuse(v, p, FALSE, r.lo)}
                  ELSE IF XGt(x, r.hi) THEN {Refuse(v, p, FALSE, r.hi)}
                  ELSE {OK(SetN(v, n)) : n \in Nearest(x)}

IsDigit(b) == b >= 48 /\ b <= 57
IsIntText(t) == LET u == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t
                IN u # <<>> /\ \A k \in 1..Len(u) : IsDigit(u[k])
RECURSIVE ParseDigits(_, _, _)
ParseDigits(t, k, acc) == IF k > Len(t) \/ Huge(acc) THEN acc
                          ELSE ParseDigits(t, k + 1, NAdd(NMul10(acc), N(t[k] - 48)))
ParseInt(t) == IF t[1] = 45 THEN NNeg(ParseDigits(t, 2, Zero)) ELSE ParseDigits(t, 1, Zero)

\* setting from text: the integer representation of numbers
StoreChars(v, t, p) ==
  IF v.y = "s" THEN OK(StoreText(v, t))
  ELSE IF v.y = "b" THEN OK(StoreBinary(v, t))
  ELSE LET u == CutNul(t, 1) IN IF IsIntText(u) THEN StoreInt(v, ParseInt(u), p) ELSE OK(Unset(v))

\* setting from formatted text; d is the number it spells
StoreFormatted(v, t, d, p) ==
  IF t = <<>> THEN {OK(Unset(v))}
  ELSE IF v.y = "s" THEN {OK(StoreText(v, t))}
  ELSE IF v.y = "b" THEN {Err(v, "other")}
  ELSE StoreDecimal(v, d, p)

CharsOf(v) == IF Numeric(v) THEN IntText(v.v) ELSE v.tx

\* the value of another variable; conversion between different units is the business of Conv, and
\* recorded histories have no pair of units that can be converted
StoreValue(v, w, p) ==
  IF w.set = 0 THEN {OK(Unset(v))}
  ELSE IF v.y = "s" THEN {OK(StoreText(v, CharsOf(w)))}
  ELSE IF v.y = "b" THEN {OK(StoreBinary(v, CharsOf(w)))}
  ELSE IF ~Numeric(w) \/ v.un # w.un THEN {Err(v, "other")}
  ELSE StoreDecimal(v, Decimal(w), p)

-----------------------------------------------------------------------------
(* Equality                                                                  *)
SameValue(v, w) ==
  IF v.set = 0 /\ w.set = 0 THEN TRUE
  ELSE IF v.set # w.set THEN FALSE
  ELSE IF Numeric(v) THEN Numeric(w) /\ ValueOf(v) = ValueOf(w)
  ELSE IF v.y = "b" THEN w.y = "b" /\ v.bl = w.bl /\ v.tx = w.tx
  ELSE w.y = "s" /\ v.tx = w.tx
SameVar(v, w) ==
  /\ v.c = w.c /\ SameValue(v, w)
  /\ Len(v.at) = Len(w.at)
  /\ \A k \in 1..Len(v.at) : v.at[k].c = w.at[k].c /\ SameValue(v.at[k], w.at[k])

-----------------------------------------------------------------------------
(* Operations                                                                *)
R0 == [st |-> "ok", cls |-> "", n |-> Zero, m |-> Zero, e |-> 0, tx |-> <<>>, b |-> 0, hk |-> 0, va |-> None]

\* the descriptor an operation asks for: an entry, possibly altered, or unknown local data
InfoOf(q) ==
  IF q.kind = "u"
  THEN [c |-> q.c, y |-> "b", sc |-> 0, bl |-> q.bl, rf |-> Zero, len |-> (q.bl + 7) \div 8, un |-> "UNKNOWN"]
  ELSE Altered(q.base, q.sc, q.bl, q.rf)
Fresh(i) == [c |-> i.c, y |-> i.y, sc |-> i.sc, bl |-> i.bl, rf |-> i.rf, len |-> i.len, un |-> i.un,
             set |-> 0, v |-> Zero, tx |-> <<>>, at |-> <<>>]

\* the slots and the result after storing: x from the Store operators
After(s, a, x) == [s |-> [s EXCEPT ![a] = x.v], r |-> [R0 EXCEPT !.st = x.st, !.cls = x.cls, !.hk = x.hk]]
\* a constructor that fails makes no variable
AfterNew(s, a, x) == IF x.st = "err" THEN [s |-> s, r |-> [R0 EXCEPT !.st = "err", !.cls = x.cls]] ELSE After(s, a, x)
Read(s, r) == {[s |-> s, r |-> r]}
Fails(s) == Read(s, [R0 EXCEPT !.st = "err", !.cls = "other"])
Put(s, a, v) == {[s |-> [s EXCEPT ![a] = v], r |-> R0]}
WithAttrs(x, at) == IF x.st = "err" THEN x ELSE [x EXCEPT !.v.at = at]
NoAttrs(v) == [v EXCEPT !.at = <<>>]

\* Reading from Lua: nil when unset, errors as in C++
LuaOps == {"lua-code", "luc-code", "lua-enqi", "luc-enqi", "lua-enqd", "luc-enqd", "lua-enqc", "luc-enqc",
           "lua-tostring", "luc-tostring", "lua-same", "luc-same"}
LuaAbuse == {"lua-badnum", "lua-badnil", "lua-badtab", "lua-badfile", "lua-badptr", "lua-badnone", "lua-badget"}
IsLua(o) == o.op \in LuaOps \/ o.op \in LuaAbuse
TwoDigits(n) == <<48 + (n \div 10), 48 + (n % 10)>>
\* B, R, C or D, two digits, three digits
CodeText(c) == LET x == (c \div 256) % 64  y == c % 256
               IN <<(<<66, 82, 67, 68>>)[(c \div 16384) + 1]>> \o TwoDigits(x) \o <<48 + (y \div 100)>> \o TwoDigits(y % 100)
UndefText == <<40, 117, 110, 100, 101, 102, 41>>
LuaOutcomes(s, v, op) ==
  CASE op \in {"lua-code", "luc-code"} -> Read(s, [R0 EXCEPT !.b = 3, !.tx = CodeText(v.c)])
    [] op \in {"lua-same", "luc-same"} -> Read(s, [R0 EXCEPT !.b = 4, !.n = N(1)])
    [] op \in {"lua-tostring", "luc-tostring"} ->
         Read(s, [R0 EXCEPT !.b = 3, !.tx = IF v.set = 0 THEN UndefText
                                            ELSE IF Numeric(v) THEN FixedText(v.v, v.sc)
                                            ELSE IF v.y = "b" THEN HexText(v.tx) ELSE v.tx])
    [] op \in LuaAbuse -> Fails(s)
    [] v.set = 0 -> Read(s, R0)
    \* binary data may be given up to its first zero
    [] op \in {"lua-enqc", "luc-enqc"} -> Read(s, [R0 EXCEPT !.b = 3, !.tx = CharsOf(v)]) \cup Read(s, [R0 EXCEPT !.b = 3, !.tx = CutNul(CharsOf(v), 1)])
    [] ~Numeric(v) -> Fails(s)
    [] op \in {"lua-enqi", "luc-enqi"} -> Read(s, [R0 EXCEPT !.b = 1, !.n = v.v])
    [] OTHER -> Read(s, [R0 EXCEPT !.b = 2, !.m = ValueOf(v).m, !.e = ValueOf(v).e])

Outcomes(s, o) ==
  LET a == o.a
      v == s[a]
      p == o.p
      w == IF o.b > 0 THEN s[o.b] ELSE None
  IN CASE o.op = "new" -> LET i == InfoOf(o.q) IN IF "bad" \in DOMAIN i THEN Fails(s) ELSE Put(s, a, Fresh(i))
       [] o.op = "newi" -> {AfterNew(s, a, StoreInt(Fresh(InfoOf(o.q)), o.n, p))}
       [] o.op = "newd" -> {AfterNew(s, a, x) : x \in StoreDecimal(Fresh(InfoOf(o.q)), o.d, p)}
       [] o.op \in {"newc", "news"} -> {AfterNew(s, a, StoreChars(Fresh(InfoOf(o.q)), o.tx, p))}
       [] o.op = "newv" -> {AfterNew(s, a, WithAttrs(x, w.at)) : x \in StoreValue(Fresh(InfoOf(o.q)), w, p)}
       [] o.op \in {"copy", "assign"} -> Put(s, a, w)
       \* the driver clears what was moved from
       [] o.op \in {"move", "massign"} -> IF a = o.b THEN Put(s, a, v)
            ELSE {[s |-> [s EXCEPT ![a] = w, ![o.b] = NoAttrs(Unset(w))], r |-> R0]}
       [] o.op = "seti" -> {After(s, a, StoreInt(v, o.n, p))}
       [] o.op = "setd" -> {After(s, a, x) : x \in StoreDecimal(v, o.d, p)}
       [] o.op \in {"setc", "sets"} -> {After(s, a, StoreChars(v, o.tx, p))}
       [] o.op = "setct" -> IF Numeric(v) THEN Fails(s) ELSE {After(s, a, StoreChars(v, o.tx, p))}
       [] o.op = "setf" -> {After(s, a, x) : x \in StoreFormatted(v, o.tx, o.d, p)}
       \* the text of b, formatted, into a
       [] o.op = "setfmt" ->
            IF w.set = 0 THEN Put(s, a, Unset(v))
            ELSE IF Numeric(v) /\ ~Numeric(w) THEN Put(s, a, v)
            ELSE {After(s, a, x) : x \in StoreFormatted(v, IF Numeric(w) THEN FixedText(w.v, w.sc)
                                                           ELSE IF w.y = "b" THEN HexText(w.tx) ELSE w.tx,
                                                        IF Numeric(w) THEN Decimal(w) ELSE [k |-> "nan"], p)}
       [] o.op = "setval" -> IF a = o.b THEN Put(s, a, v) ELSE {After(s, a, x) : x \in StoreValue(v, w, p)}
       [] o.op = "setattrs" -> Put(s, a, [v EXCEPT !.at = w.at])
       [] o.op = "setvar" -> IF a = o.b THEN Put(s, a, v)
                             ELSE {After(s, a, WithAttrs(x, w.at)) : x \in StoreValue(v, w, p)}
       [] o.op = "unset" -> Put(s, a, Unset(v))
       [] o.op = "clear" -> Put(s, a, NoAttrs(v))
       [] o.op \in {"seta", "setap"} -> Put(s, a, SetAttr(v, w))
       [] o.op = "setam" -> {[s |-> [s EXCEPT ![o.b] = NoAttrs(Unset(w)), ![a] = SetAttr(v, w)], r |-> R0]}
       \* attribute c of b becomes attribute of a
       [] o.op = "setaa" -> LET f == FindAttr(w.at, o.c) IN IF f.found THEN Put(s, a, SetAttr(v, f.a)) ELSE Put(s, a, v)
       [] o.op = "unseta" -> Put(s, a, [v EXCEPT !.at = SelectSeq(@, LAMBDA t : t.c # o.c)])
       [] o.op = "enqi" -> IF v.set = 0 \/ ~Numeric(v) THEN Fails(s) ELSE Read(s, [R0 EXCEPT !.n = v.v])
       [] o.op = "enqid" -> IF v.set = 0 THEN Read(s, [R0 EXCEPT !.n = o.n])
                            ELSE IF ~Numeric(v) THEN Fails(s) ELSE Read(s, [R0 EXCEPT !.n = v.v])
       [] o.op = "enqd" -> IF v.set = 0 \/ ~Numeric(v) THEN Fails(s)
                           ELSE Read(s, [R0 EXCEPT !.m = ValueOf(v).m, !.e = ValueOf(v).e])
       [] o.op = "enqdd" -> IF v.set = 0 THEN Read(s, [R0 EXCEPT !.m = Norm(o.d.m, o.d.e).m, !.e = Norm(o.d.m, o.d.e).e])
                           ELSE IF ~Numeric(v) THEN Fails(s)
                           ELSE Read(s, [R0 EXCEPT !.m = ValueOf(v).m, !.e = ValueOf(v).e])
       [] o.op \in {"enqc", "enqs"} -> IF v.set = 0 THEN Fails(s) ELSE Read(s, [R0 EXCEPT !.tx = CharsOf(v)])
       [] o.op \in {"enqcd", "enqsd"} -> Read(s, [R0 EXCEPT !.tx = IF v.set = 0 THEN o.tx ELSE CharsOf(v)])
       \* from Lua; b: the kind of what is returned: 0 nil, 1 integer, 2 float, 3 string, 4 boolean
       [] IsLua(o) -> LuaOutcomes(s, v, o.op)
       [] o.op = "isset" -> Read(s, [R0 EXCEPT !.b = v.set])
       [] o.op = "format" ->
            Read(s, [R0 EXCEPT !.tx = IF v.set = 0 THEN o.tx
                                      ELSE IF Numeric(v) THEN FixedText(v.v, v.sc)
                                      ELSE IF v.y = "b" THEN HexText(v.tx) ELSE v.tx])
       [] o.op = "eq" -> Read(s, [R0 EXCEPT !.b = IF SameVar(v, w) THEN 1 ELSE 0])
       [] o.op = "veq" -> Read(s, [R0 EXCEPT !.b = IF SameValue(v, w) THEN 1 ELSE 0])
       [] o.op = "diff" -> Read(s, [R0 EXCEPT !.b = IF SameVar(v, w) THEN 0 ELSE 1])
       [] o.op = "enqa" -> LET f == FindAttr(v.at, o.c) IN Read(s, [R0 EXCEPT !.b = IF f.found THEN 1 ELSE 0,
                                                                            !.va = IF f.found THEN f.a ELSE None])

\* the operation is one whose outcome is prescribed
Applies(s, o) ==
  LET need == IF o.op \in {"new", "newi", "newd", "newc", "news"} THEN {}
              ELSE IF o.op \in {"newv", "copy", "move"} THEN {o.b}
              ELSE IF o.b > 0 THEN {o.a, o.b} ELSE {o.a}
  IN \A k \in need : s[k] # None
-----------------------------------------------------------------------------
(* What holds of every variable, whatever its history                        *)
OneSound(v) ==
  /\ v.set = 1 /\ Numeric(v) => InRange(v, v.v)
  /\ v.set = 1 /\ v.y = "s" => Len(v.tx) <= v.len /\ \A k \in 1..Len(v.tx) : v.tx[k] # 0
  /\ v.set = 1 /\ v.y = "b" => Len(v.tx) = v.len /\ (v.bl % 8 = 0 \/ v.tx[v.len] < P2[v.bl % 8])
Sound(v) ==
  v # None =>
    /\ OneSound(v)
    /\ \A k \in 1..Len(v.at) : OneSound(v.at[k]) /\ v.at[k].at = <<>>
    /\ \A k \in 1..(Len(v.at) - 1) : v.at[k].c < v.at[k + 1].c
=============================================================================
