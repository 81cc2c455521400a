-------------------------------- MODULE Wrep --------------------------------
(* The wrep program: its command line, and what it writes for each message   *)
(* of each file. What the library itself says of a message (its dump, the    *)
(* values of its variables formatted, whether it can be decoded) is given    *)
(* with the message:                                                         *)
(*   [off, d, tx, bad, undecoded, feats, h, subs]                            *)
(* and Stream says which messages a file holds.                              *)
EXTENDS Stream, FiniteSets

-----------------------------------------------------------------------------
(* The command line: tokens, in the order in which options are seen:         *)
(*   [t |-> "flag", f]   an option, short or long                            *)
(*   [t |-> "print", items]  the option with the list of descriptors         *)
(*   [t |-> "file", i]  a file                                               *)
(*   [t |-> "wrong"]  anything that is no option, or lacks its argument      *)
Letters == <<66, 82, 67, 68>>   \* B R C D
FOf(b) == IF b \in 48..51 THEN b - 48 ELSE IF \E k \in 1..4 : Letters[k] = b THEN (CHOOSE k \in 1..4 : Letters[k] = b) - 1 ELSE -1
IsCode(t) == /\ Len(t) = 6 /\ FOf(t[1]) >= 0
             /\ \A k \in 2..6 : t[k] \in 48..57
             /\ (t[2] - 48) * 10 + (t[3] - 48) <= 63
CodeOf(t) == FOf(t[1]) * 16384 + ((t[2] - 48) * 10 + (t[3] - 48)) * 256 + (t[4] - 48) * 100 + (t[5] - 48) * 10 + (t[6] - 48)

Start == [crex |-> FALSE, action |-> "d", verbose |-> FALSE, codes |-> <<>>, files |-> <<>>, wrong |-> FALSE]
Option(o, x) ==
  CASE o.wrong -> o
    [] x.t = "wrong" -> [o EXCEPT !.wrong = TRUE]
    [] x.t = "file" -> [o EXCEPT !.files = Append(@, x.i)]
    [] x.t = "print" -> IF \A k \in 1..Len(x.items) : IsCode(x.items[k])
                        THEN [o EXCEPT !.action = "p", !.codes = [k \in 1..Len(x.items) |-> CodeOf(x.items[k])]]
                        ELSE [o EXCEPT !.wrong = TRUE]
    [] x.f = "c" -> [o EXCEPT !.crex = TRUE]
    [] x.f = "v" -> [o EXCEPT !.verbose = TRUE]
    [] OTHER -> [o EXCEPT !.action = x.f]
RECURSIVE Options(_, _)
Options(o, ts) == IF ts = <<>> THEN o ELSE Options(Option(o, Head(ts)), Tail(ts))

\* "usage": nothing on the standard output, exit status 1; "other": asks for something else than processing
Mode(o) == IF o.wrong THEN "usage"
           ELSE IF o.action \in {"h", "i", "L"} THEN "other"
           ELSE IF o.files = <<>> THEN "usage"
           ELSE "run"
Kind(o) == IF o.crex THEN "rc" ELSE "rb"

-----------------------------------------------------------------------------
(* What a message adds to the standard output                                *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
RECURSIVE Joined(_, _)
Joined(ts, sep) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Joined(Tail(ts), sep)
Tab == <<9>>
Colon == <<58>>
Newline == <<10>>

\* the first variable with each of the codes, where there is one
RECURSIVE Values(_, _)
Values(s, cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET k == Least({x \in 1..Len(s) : s[x].c = Head(cs)})
       IN (IF k = 0 THEN <<>> ELSE Tab \o s[k].tx) \o Values(s, Tail(cs))
RECURSIVE Lines(_, _, _, _)
Lines(name, subs, cs, k) ==
  IF k > Len(subs) THEN <<>>
  ELSE name \o Colon \o Dec(k) \o Colon \o Values(subs[k], cs) \o Newline \o Lines(name, subs, cs, k + 1)

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN <<>> ELSE <<32>> \o Spaces(n - 1)
Filename == <<70, 105, 108, 101, 110, 97, 109, 101>>
Offset == <<79, 102, 102, 115, 101, 116>>
Centre == <<67, 101, 110, 116, 114, 101>>
Subc == <<83, 117, 98, 99, 46>>
Master == <<77, 97, 115, 116, 101, 114>>
Local == <<76, 111, 99, 97, 108>>
Edition == <<69, 100, 105, 116, 105, 111, 110>>
Table == <<84, 97, 98, 108, 101>>
Heading(kind, name) ==
  (IF kind = "rb" THEN Joined(<<Filename \o Spaces(Len(name) - 8), Offset, Centre, Subc, Master, Local>>, Tab)
   ELSE Joined(<<Filename, Offset, Master, Edition, Table>>, Tab)) \o Newline

\* headed: the heading has been written already
Piece(o, name, x, headed) ==
  CASE o.action \in {"d", "s", "D", "t"} -> x.tx
    [] o.action = "p" -> IF x.bad = 1 THEN <<>> ELSE Lines(name, x.subs, o.codes, 1)
    [] o.action = "T" -> IF x.bad = 1 THEN <<>>
                         ELSE (IF headed THEN <<>> ELSE Heading(Kind(o), name))
                              \o Joined(<<name, Dec(x.off)>> \o [k \in 1..Len(x.h) |-> Dec(x.h[k])], Tab) \o Newline
    [] o.action = "F" -> IF x.bad = 1 THEN <<>> ELSE name \o Colon \o Dec(x.off) \o Colon \o Joined(x.feats, <<44>>) \o Newline
    [] o.action = "U" -> IF x.undecoded = 1 THEN x.d ELSE <<>>

\* a message that failed is reported; copies of unparsable messages are reported in another way, and
\* remarks get in the way when there are any
Quiet(o) == o.action # "U" /\ ~o.verbose
Reported(o, x) == Quiet(o) /\ x.bad = 1
=============================================================================
