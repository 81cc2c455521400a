------------------------------- MODULE Codes -------------------------------
(* Conversions between coded tables: code for "/" is -1 where it exists.     *)
EXTENDS Integers, Sequences, FiniteSets

Refused == -1000000

\* cloud types: the codes of four synoptic tables are ten codes each of 0 20 012, and one for "/"
Clouds == [t \in {"0500", "0509", "0515", "0513"} |->
             IF t = "0500" THEN [from |-> 0, slash |-> 59] ELSE IF t = "0509" THEN [from |-> 10, slash |-> 60]
             ELSE IF t = "0515" THEN [from |-> 20, slash |-> 61] ELSE [from |-> 30, slash |-> 62]]
CloudTo(t, v) == IF v \in 0..9 THEN Clouds[t].from + v ELSE IF v = -1 THEN Clouds[t].slash ELSE Refused
CloudFrom(t, v) == IF v - Clouds[t].from \in 0..9 THEN v - Clouds[t].from ELSE IF v = Clouds[t].slash THEN -1 ELSE Refused

\* present and past weather: the same codes
Weather(t, v) == IF v \in 0..(IF t = "4677" THEN 99 ELSE 9) THEN v ELSE Refused

-----------------------------------------------------------------------------
(* Flag tables of n bits: bit 1 is the leftmost; the rightmost means missing *)
(* when all are set                                                          *)
FlagOn(n, v, b) == (v \div (2 ^ (n - b))) % 2 = 1
AllBits(n) == (2 ^ n) - 1
Number(n, S) == LET RECURSIVE Add(_)
                    Add(k) == IF k = 0 THEN 0 ELSE Add(k - 1) + (IF k \in S THEN 2 ^ (n - k) ELSE 0)
                IN Add(n)

\* vertical sounding significance: <<bit of 0 08 001, bit of 0 08 042>>
Significance == { <<1, 1>>,      \* surface
                  <<2, 2>>,      \* standard level
                  <<3, 3>>,      \* tropopause level
                  <<4, 4>>,      \* maximum wind level
                  <<5, 5>>, <<5, 6>>,   \* significant temperature or humidity level
                  <<6, 7>> }     \* significant wind level
From08001(v) == IF FlagOn(7, v, 7) THEN AllBits(18)
                ELSE Number(18, {p[2] : p \in {q \in Significance : FlagOn(7, v, q[1])}})
To08001(v) == IF FlagOn(18, v, 18) THEN AllBits(7)
              ELSE Number(7, {p[1] : p \in {q \in Significance : FlagOn(18, v, q[2])}})

\* AOF: <<bit from the right, bit of 0 08 042>>
AOF == {<<0, 4>>, <<1, 3>>, <<3, 2>>, <<5, 2>>, <<6, 1>>, <<7, 7>>, <<8, 5>>}
FromAOF(v) == Number(18, {p[2] : p \in {q \in AOF : (v \div (2 ^ q[1])) % 2 = 1}})

-----------------------------------------------------------------------------
(* Octants: 0 is calm, 1 to 8 go clockwise from north-east to north, each    *)
(* including the degrees at its upper end; t is in tenths of degrees         *)
Degrees(o) == IF o \in 0..8 THEN o * 45 ELSE Refused
Octant(t) == IF t < 0 \/ t > 3600 THEN Refused
             ELSE IF t = 0 THEN 0 ELSE IF t <= 225 \/ t > 3375 THEN 8 ELSE ((t - 226) \div 450) + 1

Convert(f, v) ==
  IF f \in {"0500>", "0509>", "0515>", "0513>"} THEN CloudTo(SubSeq(f, 1, 4), v)
  ELSE IF f \in {"<0500", "<0509", "<0515", "<0513"} THEN CloudFrom(SubSeq(f, 2, 5), v)
  ELSE IF f \in {"4677>", "<4677"} THEN Weather("4677", v)
  ELSE IF f \in {"4561>", "<4561"} THEN Weather("4561", v)
  ELSE IF f = "08001>" THEN From08001(v)
  ELSE IF f = "<08042" THEN To08001(v)
  ELSE IF f = "aof>" THEN FromAOF(v)
  ELSE IF f \in {"oct>", "octu>"} THEN Degrees(v)
  ELSE Octant(v)

-----------------------------------------------------------------------------
(* What follows: converting back gives the code one started from             *)
ASSUME \A t \in DOMAIN Clouds : \A v \in -1..9 : CloudFrom(t, CloudTo(t, v)) = v
ASSUME \A t, u \in DOMAIN Clouds : \A v \in 0..9 : t # u => CloudFrom(u, CloudTo(t, v)) = Refused
ASSUME \A v \in 0..127 : To08001(From08001(v)) = (IF v % 2 = 1 THEN 127 ELSE v)
ASSUME \A o \in 0..8 : Octant(Degrees(o) * 10) = o
=============================================================================
