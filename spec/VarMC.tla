------------------------------- MODULE VarMC -------------------------------
(* All histories of a given length over a set of operations on variables,    *)
(* from every combination of first operations. Every history that reaches a  *)
(* new state, followed by each operation, is printed to be replayed.         *)
EXTENDS Var, Json, IOUtils

Given == JsonDeserialize(IOEnv.OPS)     \* [init: sequences of operations, ops: operations, depth]
Slots == 4
VARIABLES s, h, d
vars == <<s, h, d>>
View == s

Empty == [i \in 1..Slots |-> None]
RECURSIVE Play(_, _)
\* first operations are those with one outcome only
Play(x, os) == IF os = <<>> THEN x
               ELSE Play((CHOOSE y \in Outcomes(x, Head(os)) : TRUE).s, Tail(os))
Init == \E i \in 1..Len(Given.init) :
          /\ s = TLCEval(Play(Empty, Given.init[i]))
          /\ h = <<i>> /\ d = 0
-----------------------------------------------------------------------------
Readers == {"enqi", "enqid", "enqd", "enqdd", "enqc", "enqs", "enqcd", "enqsd", "isset", "format", "eq", "veq", "diff", "enqa"}
Makers == {"new", "newi", "newd", "newc", "news", "newv", "copy", "move"}
AttrOps == {"clear", "seta", "setap", "setaa", "unseta", "setattrs"}
ValueOps == {"seti", "setd", "setc", "sets", "setct", "setf", "setfmt", "setval", "unset"}
Value(v) == <<v.c, v.set, v.v, v.tx>>
Describes(v) == <<v.c, v.y, v.sc, v.bl, v.rf, v.len, v.un>>
\* operations change nothing but what they are about
Frame(o, y) ==
  /\ o.op \in Readers => y.s = s
  /\ y.r.st = "err" /\ o.op \in (Makers \cup AttrOps) => y.s = s
  /\ \A i \in 1..Slots : (i # o.a /\ ~(o.op \in {"move", "massign", "setam"} /\ i = o.b)) => y.s[i] = s[i]
  /\ o.op \in AttrOps => Value(y.s[o.a]) = Value(s[o.a])
  /\ o.op \in ValueOps => y.s[o.a].at = s[o.a].at
  /\ o.op \notin Makers \cup {"assign", "massign"} => Describes(y.s[o.a]) = Describes(s[o.a])
Laws(o, y) ==
  /\ o.op \in {"copy", "assign"} => SameVar(y.s[o.a], s[o.b]) /\ y.s[o.b] = s[o.b]
  /\ o.op \in {"move", "massign"} => SameVar(y.s[o.a], s[o.b])
  /\ o.op = "unset" => y.s[o.a].set = 0
  /\ o.op = "clear" => y.s[o.a].at = <<>>
  /\ o.op \in {"seta", "setap"} /\ y.r.st = "ok" => LET f == FindAttr(y.s[o.a].at, s[o.b].c) IN f.found /\ SameValue(f.a, s[o.b])
  /\ o.op = "unseta" => ~FindAttr(y.s[o.a].at, o.c).found
  \* errors are reported and nothing is stored, or the policy is another
  /\ (y.r.st = "err" /\ y.r.cls = "domain") => (o.p.sil = 0 /\ o.p.hook = "none" /\ (o.op \notin Makers => y.s[o.a].set = 0))
  /\ o.op \in ValueOps /\ o.p.sil = 1 => y.r.cls # "domain"

-----------------------------------------------------------------------------
Do(i) == LET o == Given.ops[i] IN
         /\ Applies(s, o)
         /\ \E y \in Outcomes(s, o) :
              /\ s' = y.s
              /\ h' = Append(h, i) /\ d' = d + 1
              /\ IOEnv.EXPORT = "1" => PrintT(<<"HIST", h'>>)
              /\ Assert(Frame(o, y), <<"frame", o, s, y>>)
              /\ Assert(Laws(o, y), <<"laws", o, s, y>>)
Next == d < Given.depth /\ \E i \in 1..Len(Given.ops) : Do(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what is stored comes back through text
TextBack(v) == v # None /\ v.set = 1 /\ v.y # "b" /\ ExactText(v) /\ (v.y = "s" => v.tx # <<>>) =>
                 LET t == IF Numeric(v) THEN FixedText(v.v, v.sc) ELSE v.tx
                     x == StoreFormatted(Unset(v), t, IF Numeric(v) THEN Decimal(v) ELSE [k |-> "nan"], [sil |-> 0, cla |-> 0, hook |-> "none"])
                 IN x = {OK(v)}
Sane == \A i \in 1..Slots : Sound(s[i]) /\ TextBack(s[i])
Eq(i, j) == s[i] # None /\ s[j] # None /\ SameVar(s[i], s[j])
Equivalence == /\ \A i \in 1..Slots : s[i] # None => Eq(i, i)
               /\ \A i, j \in 1..Slots : Eq(i, j) => Eq(j, i)
               /\ \A i, j, l \in 1..Slots : Eq(i, j) /\ Eq(j, l) => Eq(i, l)
=============================================================================
