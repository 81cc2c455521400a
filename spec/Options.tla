------------------------------ MODULE Options ------------------------------
(* The options and the target of notes of each thread, and the scopes that   *)
(* change them. Options: "sil", "cla" (0 or 1), "hk" (a hook, 0 for none)    *)
(* and "nt" (a target of notes, 0 for none). A thread has its settings and   *)
(* the stack of its open scopes, each with the setting it changed and what   *)
(* that was.                                                                 *)
EXTENDS Integers, Sequences, TLC

Opts == {"sil", "cla", "hk", "nt"}
Default == [o \in Opts |-> 0]
Fresh == [set |-> Default, stack |-> <<>>]

\* a scope begins: setting o is v until it ends
Open(t, o, v) == [set |-> [t.set EXCEPT ![o] = v], stack |-> Append(t.stack, [o |-> o, old |-> t.set[o]])]
\* the innermost scope ends
Close(t) == LET x == t.stack[Len(t.stack)]
            IN [set |-> [t.set EXCEPT ![x.o] = x.old], stack |-> SubSeq(t.stack, 1, Len(t.stack) - 1)]
\* an exception leaves n scopes
RECURSIVE Leave(_, _)
Leave(t, n) == IF n = 0 THEN t ELSE Leave(Close(t), n - 1)
\* a plain assignment
Assign(t, o, v) == [t EXCEPT !.set[o] = v]

\* what happens to values out of range with these settings
Policy(s) == IF s.sil = 1 THEN <<"unset", 0>> ELSE IF s.cla = 1 THEN <<"clamped", 0>>
             ELSE IF s.hk # 0 THEN <<"hook", s.hk>> ELSE <<"error", 0>>

\* one step of a thread
Does(t, q) == CASE q.op = "open" -> Open(t, q.o, q.v)
                [] q.op = "close" -> Close(t)
                [] q.op = "throw" -> Leave(t, q.v)
                [] q.op = "assign" -> Assign(t, q.o, q.v)
                [] OTHER -> t
Can(t, q) == (q.op = "close" => Len(t.stack) > 0) /\ (q.op = "throw" => Len(t.stack) >= q.v)

\* what can be seen in a thread: its settings, and what they cause
Seen(t) == [sil |-> t.set.sil, cla |-> t.set.cla, hk |-> t.set.hk, nt |-> t.set.nt, pol |-> Policy(t.set), note |-> t.set.nt]
=============================================================================
