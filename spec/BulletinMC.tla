----------------------------- MODULE BulletinMC -----------------------------
(* All histories of a given length over a set of operations on two bulletins, *)
(* from every combination of first operations. Every history that reaches a   *)
(* new state, followed by each operation, is printed to be replayed, with     *)
(* what comparing the two bulletins must then say.                            *)
EXTENDS Bulletin, Json, IOUtils

Given == JsonDeserialize(IOEnv.OPS)     \* [init: sequences of operations, ops: operations, depth, tab]
VARIABLES sl, h, d
vars == <<sl, h, d>>
View == sl

RECURSIVE Play(_, _)
Play(x, os) == IF os = <<>> THEN x ELSE Play(Does(x, Given.tab, Head(os)).sl, Tail(os))
Init == \E i \in 1..Len(Given.init) :
          /\ sl = TLCEval(Play([j \in 1..2 |-> None], Given.init[i]))
          /\ h = <<i>> /\ d = 0
-----------------------------------------------------------------------------
Plain(b) == [b EXCEPT !.h.comp = 0]
\* one step of one operation
Laws(q, y) ==
  \* the other bulletin is left alone, and so are both after an error other than from storing a value
  /\ y.sl[3 - q.s] = sl[3 - q.s]
  /\ y.r = "err" /\ q.op # "poke" => y.sl = sl
  /\ q.op \in Questions => y.sl = sl /\ y.r = "ok"
  \* a bulletin differs from what it was exactly when something in it has changed
  /\ sl[q.s] # None => (SameBulletin(y.sl[q.s], sl[q.s]) <=> Plain(y.sl[q.s]) = Plain(sl[q.s]))
  \* what is inside a bulletin keeps its place
  /\ q.op \in {"put", "attr", "noattr", "poke"} =>
       /\ Len(y.sl[q.s].outs) = Len(sl[q.s].outs)
       /\ \A i \in 1..Len(sl[q.s].outs) : Len(y.sl[q.s].outs[i]) = Len(sl[q.s].outs[i])
       /\ \A i \in 1..Len(sl[q.s].outs) : \A j \in 1..Len(sl[q.s].outs[i]) :
            i # q.i + 1 \/ j # q.j + 1 => y.sl[q.s].outs[i][j] = sl[q.s].outs[i][j]

Do(n) == LET q == Given.ops[n] IN
         /\ Can(sl, q)
         /\ LET y == Does(sl, Given.tab, q) IN
              /\ sl' = y.sl
              /\ h' = Append(h, n) /\ d' = d + 1
              /\ IOEnv.EXPORT = "1" => PrintT(<<"HIST", h'>>)
              /\ Assert(Laws(q, y), <<"laws", q, sl, y>>)
Next == d < Given.depth /\ \E n \in 1..Len(Given.ops) : Do(n)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Both == sl[1] # None /\ sl[2] # None
Reflexive == \A i \in 1..2 : sl[i] # None => SameBulletin(sl[i], sl[i])
Symmetric == Both => (SameBulletin(sl[1], sl[2]) <=> SameBulletin(sl[2], sl[1]))
\* every element variable is one its table can hold
Sane == \A i \in 1..2 : sl[i] # None =>
          \A j \in 1..Len(sl[i].outs) : \A l \in 1..Len(sl[i].outs[j]) : Sound(sl[i].outs[j][l])
=============================================================================
