------------------------------ MODULE Decimal ------------------------------
(* Exact decimal numbers: [s, m, e] stands for s * (the sum of              *)
(* m[i] * 10000^(i - 1 + e)), with s in {-1, 0, 1}, 0 <= m[i] < 10000 and   *)
(* no zero at the ends of m; m is <<>> for 0.                               *)
EXTENDS Integers, Sequences, TLC

DZero == [s |-> 0, m |-> <<>>, e |-> 0]
RECURSIVE TrimHigh(_)
TrimHigh(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN TrimHigh(SubSeq(m, 1, Len(m) - 1)) ELSE m
RECURSIVE LowZeros(_, _)
LowZeros(m, i) == IF i < Len(m) /\ m[i + 1] = 0 THEN LowZeros(m, i + 1) ELSE i
Norm(s, m, e) == LET t == TrimHigh(m)
                     z == LowZeros(t, 0)
                 IN IF t = <<>> THEN DZero ELSE [s |-> s, m |-> SubSeq(t, z + 1, Len(t)), e |-> e + z]

RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % 10000>> \o Limbs(n \div 10000)
D(n) == Norm(IF n < 0 THEN -1 ELSE 1, Limbs(IF n < 0 THEN -n ELSE n), 0)
\* n * 10^x
DE(n, x) == LET q == x \div 4
                f == 10 ^ (x % 4)
                d == Limbs(IF n < 0 THEN -n ELSE n)
                RECURSIVE Times(_, _)
                Times(m, c) == IF m = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
                               ELSE LET t == Head(m) * f + c IN <<t % 10000>> \o Times(Tail(m), t \div 10000)
            IN Norm(IF n < 0 THEN -1 ELSE 1, Times(d, 0), q)

Limb(a, k) == IF k - a.e >= 1 /\ k - a.e <= Len(a.m) THEN a.m[k - a.e] ELSE 0     \* limb at position k (1 is the units)
Low(a, b) == IF a.m = <<>> THEN b.e ELSE IF b.m = <<>> THEN a.e ELSE IF a.e < b.e THEN a.e ELSE b.e
High(a, b) == LET h == Len(a.m) + a.e
                  i == Len(b.m) + b.e
              IN IF a.m = <<>> THEN i ELSE IF b.m = <<>> THEN h ELSE IF h > i THEN h ELSE i
\* comparison of magnitudes
RECURSIVE MagLess(_, _, _, _)
MagLess(a, b, k, l) == IF k <= l THEN FALSE
                       ELSE IF Limb(a, k) # Limb(b, k) THEN Limb(a, k) < Limb(b, k) ELSE MagLess(a, b, k - 1, l)
MLess(a, b) == MagLess(a, b, High(a, b), Low(a, b))
RECURSIVE Sum(_, _, _, _, _)
Sum(a, b, k, h, c) == IF k > h THEN IF c = 0 THEN <<>> ELSE <<c>>
                      ELSE LET t == Limb(a, k) + Limb(b, k) + c IN <<t % 10000>> \o Sum(a, b, k + 1, h, t \div 10000)
RECURSIVE Diff(_, _, _, _, _)
Diff(a, b, k, h, c) == IF k > h THEN <<>>
                       ELSE LET t == Limb(a, k) - Limb(b, k) - c IN <<(t + 10000) % 10000>> \o Diff(a, b, k + 1, h, IF t < 0 THEN 1 ELSE 0)

DNeg(a) == [a EXCEPT !.s = -a.s]
DAbs(a) == IF a.s < 0 THEN DNeg(a) ELSE a
DAdd(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE LET l == Low(a, b)
           h == High(a, b)
       IN IF a.s = b.s THEN Norm(a.s, Sum(a, b, l + 1, h, 0), l)
          ELSE IF MLess(a, b) THEN Norm(b.s, Diff(b, a, l + 1, h, 0), l)
          ELSE Norm(a.s, Diff(a, b, l + 1, h, 0), l)
DSub(a, b) == DAdd(a, DNeg(b))
DLess(a, b) == DSub(a, b).s < 0
DLe(a, b) == DSub(a, b).s <= 0
DMax(a, b) == IF DLess(a, b) THEN b ELSE a

RECURSIVE TimesLimb(_, _, _)
TimesLimb(m, d, c) == IF m = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
                      ELSE LET t == Head(m) * d + c IN <<t % 10000>> \o TimesLimb(Tail(m), d, t \div 10000)
RECURSIVE Product(_, _, _)
Product(a, b, i) == IF i > Len(b.m) THEN DZero
                    ELSE DAdd(Norm(1, TimesLimb(a.m, b.m[i], 0), a.e + b.e + i - 1), Product(a, b, i + 1))
DMul(a, b) == IF a.s = 0 \/ b.s = 0 THEN DZero
              ELSE [Product(a, b, 1) EXCEPT !.s = a.s * b.s]
DWithin(a, b, t) == DLe(DAbs(DSub(a, b)), t)
=============================================================================
