------------------------------ MODULE TablesMC ------------------------------
(* Choosing among every small set of installed tables, for every              *)
(* identification wanted. The steps install one more table; the laws of the   *)
(* choice are checked in every state, and every set of tables is printed to   *)
(* be installed and asked for.                                                *)
EXTENDS Tables, Json, IOUtils

Given == JsonDeserialize(IOEnv.OPS)     \* [all: tables that can be installed, wanted, max]
VARIABLES inst                          \* positions in Given.all, increasing
vars == <<inst>>

T(l) == [i \in 1..Len(l) |-> Given.all[l[i]]]
Init == inst = <<>>
Next == /\ Len(inst) < Given.max
        /\ \E i \in 1..Len(Given.all) :
             /\ (IF inst = <<>> THEN 0 ELSE inst[Len(inst)]) < i
             /\ inst' = Append(inst, i)
             /\ PrintT(<<"INST", inst'>>)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Chosen(w, l) == {l[i] : i \in Choice(w, T(l))}
Reverse(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
Drop(l, i) == SelectSeq(l, LAMBDA x : x # i)
In(l) == {l[i] : i \in 1..Len(l)}
Is(w, t) == t.k = w.k /\ t.mt = w.mt /\ t.mtv = w.mtv /\ t.ed = w.ed /\ (w.k = "b" => t.ce = w.ce /\ t.sc = w.sc /\ t.lv = w.lv) /\ (w.k = "c" => t.bv = w.bv)
Wanted(i) == Given.wanted[i]
\* one is chosen exactly when there is one that will do, and it will do
Total == \A i \in 1..Len(Given.wanted) :
  LET w == Wanted(i)
      A == {j \in In(inst) : Acceptable(w, Given.all[j])}
  IN Chosen(w, inst) \subseteq A /\ (A # {} => Chosen(w, inst) # {})
\* the table asked for, if it is there
Exact == \A i \in 1..Len(Given.wanted) :
  LET w == Wanted(i) IN
  w.k = "b" => ((\E j \in In(inst) : Is(w, Given.all[j])) => \A j \in Chosen(w, inst) : Is(w, Given.all[j]))
\* the order in which tables are found does not matter
Unordered == \A i \in 1..Len(Given.wanted) : Chosen(Wanted(i), inst) = Chosen(Wanted(i), Reverse(inst))
\* nor do the tables that are not chosen
Irrelevant == \A i \in 1..Len(Given.wanted) :
  \A j \in In(inst) \ Chosen(Wanted(i), inst) : Chosen(Wanted(i), Drop(inst, j)) = Chosen(Wanted(i), inst)
=============================================================================
