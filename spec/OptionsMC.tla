------------------------------ MODULE OptionsMC ------------------------------
(* All histories of a few threads with a few nested scopes                   *)
EXTENDS Options, FiniteSets
CONSTANTS Threads, Depth, Values
VARIABLES th, base
vars == <<th, base>>
\* base: the settings each thread had outside all of its scopes
Init == th = [i \in Threads |-> Fresh] /\ base = [i \in Threads |-> Default]
Vals(o) == IF o \in {"sil", "cla"} THEN {0, 1} ELSE Values
Begins(i) == \E o \in Opts : \E v \in Vals(o) :
              Len(th[i].stack) < Depth /\ th' = [th EXCEPT ![i] = Open(@, o, v)] /\ base' = base
Ends(i) == \E n \in 1..Len(th[i].stack) : th' = [th EXCEPT ![i] = Leave(@, n)] /\ base' = base
Sets(i) == th[i].stack = <<>> /\ \E o \in {"sil", "hk"} : \E v \in Vals(o) :
              th' = [th EXCEPT ![i] = Assign(@, o, v)] /\ base' = [base EXCEPT ![i][o] = v]
Next == \E i \in Threads : Begins(i) \/ Ends(i) \/ Sets(i)
Spec == Init /\ [][Next]_vars

\* whatever has been opened, leaving everything restores what was there before
Restored == \A i \in Threads : Leave(th[i], Len(th[i].stack)).set = base[i]
\* options for which no scope is open have their own value
Untouched == \A i \in Threads : \A o \in Opts :
               (\A x \in 1..Len(th[i].stack) : th[i].stack[x].o # o) => th[i].set[o] = base[i][o]
\* steps of a thread change nothing in the others
Isolated == [][\E i \in Threads : \A j \in Threads \ {i} : th'[j] = th[j]]_vars
=============================================================================
