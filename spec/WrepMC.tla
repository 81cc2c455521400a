------------------------------- MODULE WrepMC -------------------------------
(* Files made of pieces: messages that can be decoded, messages that cannot, *)
(* other bytes, and a message cut short at the end. Whatever the file, the   *)
(* copy of its unparsable messages is a stream that holds them, all of them, *)
(* and nothing else; and processing two files is processing one, then the    *)
(* other. Every file is printed, to be given to the program.                 *)
EXTENDS Wrep, Json, IOUtils
Given == JsonDeserialize(IOEnv.PIECES)   \* [kind, n, pieces: [what, d]]; what: "good", "bad", "noise" or "cut"
VARIABLES w, data, phase
vars == <<w, data, phase>>

Init == w = <<>> /\ data = <<>> /\ phase = "write"
Write == /\ phase = "write" /\ Len(w) < Given.n
         /\ \E i \in 1..Len(Given.pieces) :
              /\ w' = Append(w, i)
              /\ data' = data \o Given.pieces[i].d
              /\ phase' = IF Given.pieces[i].what = "cut" THEN "cut" ELSE "write"
Close == /\ phase \in {"write", "cut"}
         /\ phase' = "closed"
         /\ IOEnv.EXPORT = "1" => PrintT(<<"FILE", w>>)
         /\ UNCHANGED <<w, data>>
Next == Write \/ Close
Spec == Init /\ [][Next]_vars

\* the messages of a stream, as far as they can be read
RECURSIVE Messages(_, _)
Messages(d, p) == LET r == Read(Given.kind, d, p) IN IF r.st = "ok" THEN <<r.d>> \o Messages(d, r.next) ELSE <<>>
Undecoded(m) == \E i \in 1..Len(Given.pieces) : Given.pieces[i].what = "bad" /\ Given.pieces[i].d = m
Known(m) == [off |-> 0, d |-> m, tx |-> m, bad |-> IF Undecoded(m) THEN 1 ELSE 0, undecoded |-> IF Undecoded(m) THEN 1 ELSE 0,
             feats |-> <<>>, h |-> <<1, 2>>, subs |-> <<<<[c |-> 257, tx |-> <<49>>]>>>>]
RECURSIVE Output(_, _, _, _)
Output(o, name, ms, headed) ==
  IF ms = <<>> THEN <<>>
  ELSE LET x == Known(Head(ms)) IN Piece(o, name, x, headed) \o Output(o, name, Tail(ms), headed \/ x.bad = 0)

O(a) == [Start EXCEPT !.action = a, !.crex = (Given.kind = "rc"), !.codes = <<257, 258>>]
CopyHoldsUnparsable == LET ms == Messages(data, 1) IN Messages(Output(O("U"), <<97>>, ms, FALSE), 1) = SelectSeq(ms, Undecoded)
\* whatever the action, a message that can be decoded adds to the output, and one that cannot does not
Each(a) == \A i \in 1..Len(Given.pieces) : LET x == Known(Given.pieces[i].d) IN (Piece(O(a), <<97>>, x, TRUE) # <<>>) <=> (x.bad = (IF a = "U" THEN 1 ELSE 0))
EachAction == \A a \in {"p", "T", "F", "U"} : Each(a)
InSequence == LET ms == Messages(data, 1) IN
  \A a \in {"p", "F", "U", "d"} : \A c \in 0..Len(ms) :
     Output(O(a), <<97>>, ms, TRUE) = Output(O(a), <<97>>, SubSeq(ms, 1, c), TRUE) \o Output(O(a), <<97>>, SubSeq(ms, c + 1, Len(ms)), TRUE)
=============================================================================
