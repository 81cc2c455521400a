---------------------------- MODULE BufrMessage ----------------------------
(* The envelope of a BUFR message: sections 0..5 of editions 2, 3 and 4.    *)
EXTENDS Bufr

Slice(d, from, to) == SubSeq(d, from + 1, to)       \* bytes [from, to), 0-based

Bad == [ok |-> FALSE]
B0(d, o) == d[o + 1]

\* end of the section that starts at o, or -1
SectionEnd(d, o) == IF o + 3 > Len(d) THEN -1
                    ELSE LET e == o + BE(d, o, 3) IN IF e > Len(d) THEN -1 ELSE e

Header3(d, o) ==
  LET yy == B0(d, o + 12) IN
  [mt |-> B0(d, o + 3), sc |-> B0(d, o + 4), ce |-> B0(d, o + 5), upd |-> B0(d, o + 6),
   cat |-> B0(d, o + 8), sub |-> 255, lsub |-> B0(d, o + 9), mtv |-> B0(d, o + 10), mtl |-> B0(d, o + 11),
   yr |-> IF yy > 50 THEN 1900 + yy ELSE 2000 + yy, mo |-> B0(d, o + 13), dy |-> B0(d, o + 14),
   hh |-> B0(d, o + 15), mi |-> B0(d, o + 16), ss |-> 0]
Header4(d, o) ==
  [mt |-> B0(d, o + 3), ce |-> BE(d, o + 4, 2), sc |-> BE(d, o + 6, 2), upd |-> B0(d, o + 8),
   cat |-> B0(d, o + 10), sub |-> B0(d, o + 11), lsub |-> B0(d, o + 12), mtv |-> B0(d, o + 13), mtl |-> B0(d, o + 14),
   yr |-> BE(d, o + 15, 2), mo |-> B0(d, o + 17), dy |-> B0(d, o + 18),
   hh |-> B0(d, o + 19), mi |-> B0(d, o + 20), ss |-> B0(d, o + 21)]

ParseHeader(d) ==
  IF Len(d) < 8 THEN Bad
  ELSE IF Slice(d, 0, 4) # <<66, 85, 70, 82>> THEN Bad
  ELSE LET ed == B0(d, 7) IN
  IF ed \notin {2, 3, 4} THEN Bad
  ELSE LET s2 == SectionEnd(d, 8) IN
  IF s2 = -1 \/ 8 + (IF ed = 4 THEN 22 ELSE 18) > Len(d) THEN Bad
  ELSE LET opt == B0(d, IF ed = 4 THEN 17 ELSE 15) >= 128
           s3 == IF opt THEN SectionEnd(d, s2) ELSE s2
       IN
  IF s3 = -1 THEN Bad
  ELSE LET s4 == SectionEnd(d, s3) IN
  IF s4 = -1 THEN Bad
  ELSE LET s5 == SectionEnd(d, s4) IN
  IF s5 = -1 \/ s3 - s2 \in 1..3 \/ s4 - s3 < 8 THEN Bad
  ELSE LET h == IF ed = 4 THEN Header4(d, 8) ELSE Header3(d, 8)
           nd == (s4 - s3 - 7) \div 2
       IN [ok |-> TRUE, ed |-> ed, h |-> h,
           opt |-> IF s3 - s2 > 4 THEN Slice(d, s2 + 4, s3) ELSE <<>>,
           nsub |-> BE(d, s3 + 4, 2), comp |-> (B0(d, s3 + 6) \div 64) % 2 = 1,
           desc |-> TLCEval([k \in 1..nd |-> BE(d, s3 + 7 + 2 * (k - 1), 2)]),
           sec |-> <<8, s2, s3, s4, s5>>]

EndMark(d, o) == o + 4 <= Len(d) /\ Slice(d, o, o + 4) = <<55, 55, 55, 55>>

\* the machine that decodes the data section of a message with a good header
DecodeMachine(d, hd, tab, undef) ==
  Machine("dec", d, 8 * (hd.sec[4] + 4), 8 * hd.sec[5], tab, hd.desc, hd.nsub, hd.comp, undef,
          TLCEval([k \in 1..hd.nsub |-> <<>>]))

-----------------------------------------------------------------------------
(* Writing the envelope: the bytes before the data of section 4, for header *)
(* fields h (with ed, opt), descriptors and number of subsets.               *)
W16(n) == <<n \div 256, n % 256>>
W24(n) == <<n \div 65536, (n \div 256) % 256, n % 256>>

Sec1(ed, h, hasopt) ==
  IF ed = 4
  THEN <<0, 0, 22, h.mt>> \o W16(h.ce) \o W16(h.sc) \o <<h.upd, IF hasopt THEN 128 ELSE 0, h.cat, h.sub, h.lsub, h.mtv, h.mtl>>
       \o W16(h.yr) \o <<h.mo, h.dy, h.hh, h.mi, h.ss>>
  ELSE <<0, 0, 18, h.mt, h.sc % 256, h.ce % 256, h.upd, IF hasopt THEN 128 ELSE 0, h.cat, h.lsub, h.mtv, h.mtl,
         IF h.yr = 2000 THEN 100 ELSE h.yr % 100, h.mo, h.dy, h.hh, h.mi, h.yr \div 100>>

Sec2(opt) == IF opt = <<>> THEN <<>>
             ELSE LET pad == IF Len(opt) % 2 = 1 THEN <<0>> ELSE <<>>
                  IN W24(4 + Len(opt) + Len(pad)) \o <<0>> \o opt \o pad

Flatten(desc) == [k \in 1..(2 * Len(desc)) |-> W16(desc[(k + 1) \div 2])[IF k % 2 = 1 THEN 1 ELSE 2]]
Sec3(desc, nsub) == W24(8 + 2 * Len(desc)) \o <<0>> \o W16(nsub) \o <<128>> \o Flatten(desc) \o <<0>>

Envelope(ed, h, opt, desc, nsub) == Sec1(ed, h, opt # <<>>) \o Sec2(opt) \o Sec3(desc, nsub)

\* the message d is the encoding of these header fields, with nbits of data in section 4
EnvelopeHolds(d, ed, h, opt, desc, nsub, endpos) ==
  LET env == Envelope(ed, h, opt, desc, nsub)
      s4 == 8 + Len(env)
      used == (endpos + 7) \div 8
      s5 == used + (used % 2)
  IN /\ Len(d) = s5 + 4
     /\ Slice(d, 0, 4) = <<66, 85, 70, 82>>
     /\ Slice(d, 4, 7) = W24(Len(d))
     /\ B0(d, 7) = ed
     /\ Slice(d, 8, s4) = env
     /\ Slice(d, s4, s4 + 4) = W24(s5 - s4) \o <<0>>
     \* padding
     /\ ((endpos % 8) # 0 => Small(d, endpos, 8 - (endpos % 8)) = 0)
     /\ ((used % 2) = 1 => B0(d, used) = 0)
     /\ EndMark(d, s5)

\* where the data of section 4 start in such a message, in bits
DataStart(ed, h, opt, desc, nsub) == 8 * (8 + Len(Envelope(ed, h, opt, desc, nsub)) + 4)
=============================================================================
