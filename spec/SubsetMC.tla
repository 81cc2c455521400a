------------------------------ MODULE SubsetMC ------------------------------
(* All short histories over a set of operations on subsets; every one is     *)
(* printed to be replayed.                                                   *)
EXTENDS Subset, Json, IOUtils

Given == JsonDeserialize(IOEnv.OPS)     \* [init: sequences of operations, ops: operations, depth]
VARIABLES x, h, d
vars == <<x, h, d>>
View == x

Empty == [v |-> [i \in 1..2 |-> None], u |-> [i \in 1..3 |-> NoSubset]]
RECURSIVE Play(_, _)
Play(y, os) == IF os = <<>> THEN y ELSE Play((CHOOSE z \in Outcomes2(y, Head(os)) : TRUE).x, Tail(os))
Init == \E i \in 1..Len(Given.init) :
          /\ x = TLCEval(Play(Empty, Given.init[i]))
          /\ h = <<i>> /\ d = 0

Adders == {"s-var", "s-varm", "s-undefi", "s-code", "s-i", "s-d", "s-c", "s-undef", "s-dpb", "s-fix"}
\* nothing else changes
Frame(o, y) ==
  /\ \A i \in 1..3 : (i = o.a /\ o.op \notin LooseOps) \/ (i = o.b /\ o.op \in {"s-move", "s-massign"}) \/ y.x.u[i] = x.u[i]
  /\ \A i \in 1..2 : o.op \in LooseOps \cup {"s-varm", "e-get"} \/ y.x.v[i] = x.v[i]
  /\ o.op \in Adders => y.x.u[o.a].t = x.u[o.a].t
  /\ y.r.st = "err" => y.x = x \/ o.op \in LooseOps
\* what is added comes last, and what was there before stays
Adds(o, y) == o.op \in Adders /\ y.r.st = "ok" =>
                LET b == x.u[o.a].vs  e == y.x.u[o.a].vs
                IN Len(e) = Len(b) + 1 /\ SubSeq(e, 1, Len(b)) = b
Bitmaps(o, y) == o.op = "s-dpb" => LET e == y.x.u[o.a].vs  t == e[Len(e)].tx
                                   IN Len(t) = o.k /\ N(Marks(t)) = y.r.n /\ Marks(t) <= Len(x.u[o.a].vs)
Compares(o, y) == o.op = "s-diff" /\ o.a = o.b => y.r.b = 0
Copies(o, y) == o.op \in {"s-copy", "s-assign", "s-move", "s-massign"} => y.x.u[o.a] = x.u[o.b]

Do(i) == LET o == Given.ops[i] IN
         /\ Applies2(x, o)
         /\ \E y \in Outcomes2(x, o) :
              /\ x' = y.x
              /\ h' = Append(h, i) /\ d' = d + 1
              /\ IOEnv.EXPORT = "1" => PrintT(<<"HIST", h'>>)
              /\ Assert(Frame(o, y) /\ Adds(o, y) /\ Bitmaps(o, y) /\ Compares(o, y) /\ Copies(o, y), <<"laws", o, x, y>>)
Next == d < Given.depth /\ \E i \in 1..Len(Given.ops) : Do(i)
Spec == Init /\ [][Next]_vars
Sane == SoundState(x)
=============================================================================
