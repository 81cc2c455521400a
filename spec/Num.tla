-------------------------------- MODULE Num --------------------------------
(* Integers wider than TLC's 32 bits, as pairs <<hi, lo>> standing for      *)
(* hi * 65536 + lo with 0 <= lo < 65536, and big-endian bit fields of byte  *)
(* sequences.                                                                *)
EXTENDS Integers, Sequences, TLC

N(i) == <<i \div 65536, i % 65536>>
Zero == <<0, 0>>
NAdd(a, b) == LET l == a[2] + b[2] IN <<a[1] + b[1] + (l \div 65536), l % 65536>>
NNeg(a) == IF a[2] = 0 THEN <<-a[1], 0>> ELSE <<-a[1] - 1, 65536 - a[2]>>
NSub(a, b) == NAdd(a, NNeg(b))
NLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NLe(a, b) == a = b \/ NLt(a, b)
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NMin(a, b) == IF NLt(a, b) THEN a ELSE b
NIsNeg(a) == a[1] < 0
NAbs(a) == IF a[1] < 0 THEN NNeg(a) ELSE a
NMul10(a) == LET l == a[2] * 10 IN <<a[1] * 10 + (l \div 65536), l % 65536>>
RECURSIVE NScale10(_, _)
NScale10(a, k) == IF k = 0 THEN a ELSE NScale10(NMul10(a), k - 1)
\* only for values known to fit TLC's integers
NInt(a) == a[1] * 65536 + a[2]
NFits30(a) == a[1] >= -16384 /\ a[1] < 16384

P2 == [i \in 0..30 |-> 2 ^ i]
Pow2(n) == IF n < 16 THEN <<0, P2[n]>> ELSE <<P2[n - 16], 0>>      \* 0 <= n <= 46
AllOnes(n) == NSub(Pow2(n), <<0, 1>>)
IntMax == <<32767, 65535>>
IntMin == <<-32768, 0>>
Pow10(k) == NScale10(<<0, 1>>, k)

\* n <= 17 bits of byte sequence d, starting at bit p
Small(d, p, n) ==
  IF n = 0 THEN 0 ELSE
  LET b == p \div 8
      o == p % 8
      nb == (o + n + 7) \div 8
      v == IF nb = 1 THEN d[b + 1]
           ELSE IF nb = 2 THEN d[b + 1] * 256 + d[b + 2]
           ELSE d[b + 1] * 65536 + d[b + 2] * 256 + d[b + 3]
  IN (v \div P2[8 * nb - o - n]) % P2[n]

\* n <= 32 bits as a wide number
Bits(d, p, n) == IF n <= 16 THEN <<0, Small(d, p, n)>>
                 ELSE <<Small(d, p, n - 16), Small(d, p + n - 16, 16)>>

\* nbytes bytes (<= 3) at byte offset o (0-based): section lengths and the like
BE(d, o, nbytes) == IF nbytes = 1 THEN d[o + 1]
                    ELSE IF nbytes = 2 THEN d[o + 1] * 256 + d[o + 2]
                    ELSE d[o + 1] * 65536 + d[o + 2] * 256 + d[o + 3]

\* the bytes of a bit string that starts at bit p and is n bits long, low-aligned in the last one
BitBytes(d, p, n) == TLCEval([i \in 1..((n + 7) \div 8) |->
                        Small(d, p + 8 * (i - 1), IF 8 * i <= n THEN 8 ELSE n - 8 * (i - 1))])

RECURSIVE BitsOf(_, _)
BitsOf(v, n) == IF n = 0 THEN <<>> ELSE Append(BitsOf(v \div 2, n - 1), v % 2)
=============================================================================
