------------------------------- MODULE CrexMC -------------------------------
(* All CREX data sections with given descriptors and up to so many           *)
(* characters: characters arrive one by one, as long as decoding fails       *)
(* without them and could go on with them. What is decoded is encoded and    *)
(* decoded again. Every text met is printed, to be decoded by the library.   *)
EXTENDS Crex, Json, IOUtils

Lists == JsonDeserialize(IOEnv.LISTS)       \* [desc, cd, max]
Tab == JsonDeserialize(IOEnv.TABLES)

VARIABLES l, text, s
vars == <<l, text, s>>

Step(x) == IF IsElement(x) THEN Element(x)
           ELSE IF IsReplication(x) THEN Replication(x)
           ELSE IF IsOperator(x) THEN Operator(x)
           ELSE IF IsSequence(x) THEN Sequence(x)
           ELSE IF IsReturn(x) THEN Return(x)
           ELSE EndSubset(x)
RECURSIVE Run(_)
Run(x) == IF x.st # "run" THEN x ELSE Run(TLCEval(Step(x)))

CD == Lists[l].cd = 1
Desc == Lists[l].desc
Data(t) == Run(Machine("dec", t, 1, Tab, Desc, CD, <<<<>>>>))
Without(x) == [x EXCEPT !.tab = 0, !.d = <<>>]

\* the check digit that is expected, if any, and others
Tokens == {<<c>> : c \in {48, 49, 45, 47, 32, 43, 65} \cup (IF CD THEN {48 + s.exp} ELSE {})} \cup {PP \o S7777}
Fill(c) == [k \in 1..5 |-> c]
Pads == LET d == IF CD THEN {<<>>, <<48 + s.exp>>} ELSE {<<>>}
        IN {a \o Fill(c) : a \in d, c \in {48, 47, 65}} \cup {PP \o S7777, <<43>> \o S7777, <<43, 48 + s.exp>> \o Fill(48)}
\* some way to go on brings further than where decoding stopped
Alive == \E p \in Pads : LET y == Data(text \o p) IN y.st = "ok" \/ y.p > s.p \/ y.sub > s.sub

Init == /\ l \in 1..Len(Lists)
        /\ text = <<>>
        /\ s = Without(Data(<<>>))
Type == /\ s.st = "err" /\ Len(text) < Lists[l].max /\ Alive = TRUE
        \* blanks after the header have been skipped already
        /\ \E t \in Tokens : /\ (text # <<>> \/ t # <<32>>) = TRUE
                             /\ text' = text \o t
                             /\ s' = Without(Data(text'))
                             /\ IOEnv.EXPORT = "1" => PrintT(<<"MSG", l, text', s'.st>>)
        /\ l' = l
Next == Type
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Head0 == [mt |-> 0, ed |-> 1, mtv |-> 14, cat |-> 0, sub |-> 255, lsub |-> 0]
Encoded == Run(EncodeMachine(<<>>, Head0, Tab, Desc, CD, s.outs))
Again(e) == LET h == ParseHeader(e.w) IN IF ~h.ok THEN [st |-> "header"] ELSE Run(DecodeMachine(e.w, h, Tab))
Explicit == Listed(Desc) # Desc

\* what has been decoded can be encoded, and decodes to the same, but for the codes of replication factors
Values(outs) == [i \in 1..Len(outs) |-> [j \in 1..Len(outs[i]) |-> [outs[i][j] EXCEPT !.c = IF X(@) = 31 THEN B31012 ELSE @]]]
RoundTrip == s.st = "ok" => LET e == Encoded IN
               /\ e.st = "ok"
               /\ ~Explicit => e.back = s.outs
               /\ LET a == Again(e) IN a.st = "ok" /\ a.outs = e.back /\ Values(a.outs) = Values(s.outs)
\* the header that comes back
HeaderBack == s.st = "ok" => LET h == ParseHeader(Encoded.w) IN
               /\ h.ok /\ ~h.wild /\ h.cd = CD /\ h.h = Head0
               /\ h.desc = Listed(Desc)
               \* encoding once more changes nothing
               /\ Listed(h.desc) = h.desc
\* numbers are within what their field can hold, text does not end with blanks
InField == \A i \in 1..Len(s.outs) : \A j \in 1..Len(s.outs[i]) :
             LET v == s.outs[i][j] IN
             v.set = 1 => IF Numeric(v) THEN InRange(Entry(Tab, v.c), v.v)
                          ELSE Len(v.tx) <= Entry(Tab, v.c).len /\ (v.tx # <<>> => ~Space(v.tx[Len(v.tx)]))
InBounds == s.p <= Len(text) + 1
=============================================================================
