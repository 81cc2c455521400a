------------------------------- MODULE BufrMC -------------------------------
(* All messages with given lists of descriptors and up to so many bits of    *)
(* data: bits arrive one by one, as long as decoding fails without them.     *)
(* What is decoded is validated, encoded, and decoded again. Every message   *)
(* met is printed, to be decoded by the library.                             *)
EXTENDS BufrMessage, Json, IOUtils

Lists == JsonDeserialize(IOEnv.LISTS)       \* [desc, nsub, comp, max]; max: how many bits at most
Tab == JsonDeserialize(IOEnv.TABLES)

VARIABLES l, bits, s
vars == <<l, bits, s>>

RECURSIVE Pack(_)
Pack(b) == IF b = <<>> THEN <<>>
           ELSE LET at(k) == IF k <= Len(b) THEN b[k] ELSE 0
                IN <<128 * at(1) + 64 * at(2) + 32 * at(3) + 16 * at(4) + 8 * at(5) + 4 * at(6) + 2 * at(7) + at(8)>>
                   \o Pack(SubSeq(b, 9, Len(b)))

Nothing(n) == TLCEval([k \in 1..n |-> <<>>])
Decoding(c, b) == Machine("dec", Pack(b), 0, Len(b), Tab, c.desc, c.nsub, c.comp = 1, FALSE, Nothing(c.nsub))

\* the tables are always the same: not kept in the states
Without(x) == [x EXCEPT !.tab = 0]
With(x) == [x EXCEPT !.tab = Tab]

Step(x) == IF IsElement(x) THEN Element(x)
           ELSE IF IsReplication(x) THEN Replication(x)
           ELSE IF IsOperator(x) THEN Operator(x)
           ELSE IF IsSequence(x) THEN Sequence(x)
           ELSE IF IsReturn(x) THEN Return(x)
           ELSE EndSubset(x)
RECURSIVE Run(_)
Run(x) == IF x.st # "run" THEN x ELSE Run(TLCEval(Step(x)))

Init == /\ l \in 1..Len(Lists)
        /\ bits = <<>>
        /\ s = Without(Decoding(Lists[l], <<>>))

Tell(st) == IOEnv.EXPORT = "1" => PrintT(<<"MSG", l, bits, st>>)
\* with more bits, few enough, the step would work: three bits of any kind followed by all zeros or all ones
Pads == [n : 0..7, z : {0, 1}]
Padded3(b, p) == b \o BitsOf(p.n, 3) \o [k \in 1..96 |-> p.z]
Hopeful(x) == \E p \in Pads : LET y == Step([With(x) EXCEPT !.d = Pack(Padded3(bits, p)), !.lim = Len(bits) + 99])
                               IN y.st # "err" /\ y.pos <= Lists[l].max
Decode == LET x == Step(With(s)) IN
          /\ s.st = "run"
          /\ IF x.st = "err" /\ Len(bits) < Lists[l].max /\ Hopeful(s)
             THEN \* one more bit, and the same step again
                  \E b \in {0, 1} : /\ bits' = Append(bits, b)
                                    /\ s' = [s EXCEPT !.d = Pack(bits'), !.lim = @ + 1]
             ELSE /\ bits' = bits /\ s' = Without(x)
                  /\ x.st # "run" => Tell(x.st)
          /\ l' = l
Next == Decode
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Strung(_, _)
Low(v, n) == BitsOf(NInt(v), n)
Strung(fs, k) == IF k > Len(fs) THEN <<>> ELSE Low(fs[k].v, fs[k].n) \o Strung(fs, k + 1)

Essence(v) == <<v.c, v.y, v.sc, v.bl, v.set, v.v, v.tx>>
Essences(v) == <<Essence(v), [i \in 1..Len(v.at) |-> Essence(v.at[i])]>>
Content(outs) == [i \in 1..Len(outs) |-> [j \in 1..Len(outs[i]) |-> Essences(outs[i][j])]]

Encoded == Run(Machine("enc", <<>>, 0, 0, Tab, s.desc, s.nsub, FALSE, FALSE, s.outs))
Validated == Run(Machine("val", <<>>, 0, 0, Tab, s.desc, s.nsub, FALSE, FALSE, s.outs))
Again(e) == LET b == Strung(e.fields, 1)
            IN Run(Machine("dec", Pack(b), 0, Len(b), Tab, s.desc, s.nsub, FALSE, FALSE, Nothing(s.nsub)))

\* variables with two attributes from the same code cannot be told from those with one
Marked(d) == {F(d[k]) * 64 + X(d[k]) : k \in 1..Len(d)}
Ambiguous == {2 * 64 + 4, 2 * 64 + 22} \subseteq Marked(s.desc)

\* what has been decoded can be encoded, and decodes to the same
RoundTrip == s.st = "ok" /\ ~Ambiguous =>
               LET e == Encoded IN e.st = "ok" /\ LET a == Again(e) IN a.st = "ok" /\ Content(a.outs) = Content(s.outs)
\* numbers have one representation only; new reference values are known from the variables that have them,
\* and associated fields without a known meaning are not kept
Canonical == s.st = "ok" /\ ~s.comp /\ ~Ambiguous /\ Marked(s.desc) \cap {2 * 64 + 3, 2 * 64 + 4} = {} => SubSeq(Strung(Encoded.fields, 1), 1, s.pos) = SubSeq(bits, 1, s.pos)
\* the validator accepts what has been decoded
Accepted == s.st = "ok" => Validated.st = "ok"
\* all the bits that have been asked for have been used, and no more
InBounds == s.pos <= Len(bits)
OrderedAttrs == \A a \in 1..Len(s.outs) : \A b \in 1..Len(s.outs[a]) :
                   LET at == s.outs[a][b].at IN
                   /\ \A i \in 1..(Len(at) - 1) : at[i].c < at[i + 1].c
                   /\ \A i \in 1..Len(at) : at[i].at = <<>>
MapsPointAtElements == \A i \in 1..Len(s.bm.cur.refs) :
                   LET p == s.bm.cur.refs[i] IN p <= Len(s.outs[s.sub]) /\ F(s.outs[s.sub][p].c) = 0
\* compressed subsets have the same structure
SameShape == s.comp => \A a \in 1..Len(s.outs) : Len(s.outs[a]) = Len(s.outs[1]) /\ \A b \in 1..Len(s.outs[a]) : s.outs[a][b].c = s.outs[1][b].c
=============================================================================
