------------------------------ MODULE Bulletin ------------------------------
(* Histories of bulletins as objects: building them, changing them, comparing *)
(* them and looking at them. The state is a sequence of slots, each None or   *)
(*   [kind, h, opt, desc, outs, tabs]                                         *)
(* kind "bufr" or "crex"; h: header fields; opt: optional section; desc: data *)
(* descriptors; outs: subsets, sequences of variables; tabs: whether tables   *)
(* have been loaded.                                                          *)
(*                                                                            *)
(* Does(sl, tab, q) gives [sl, r] for operation q: slots afterwards and       *)
(* result "ok" or "err". Questions do not change anything; their answers are  *)
(* not prescribed, but they are a function of the contents.                   *)
EXTENDS Var

NewHeader(kind) ==
  [mt |-> 0, ce |-> 65535, sc |-> 65535, upd |-> 0, cat |-> 255, sub |-> 255, lsub |-> 255,
   mtv |-> 19, mtl |-> 0, yr |-> 0, mo |-> 0, dy |-> 0, hh |-> 0, mi |-> 0, ss |-> 0,
   ed |-> IF kind = "bufr" THEN 4 ELSE 2, bv |-> IF kind = "crex" THEN 19 ELSE 0, cd |-> 0, comp |-> 0]
NewBulletin(kind) == [kind |-> kind, h |-> NewHeader(kind), opt |-> <<>>, desc |-> <<>>, outs |-> <<>>, tabs |-> FALSE]

Sub(b, i) == b.outs[i + 1]
HasSub(b, i) == i < Len(b.outs)
HasVarAt(b, i, j) == HasSub(b, i) /\ j < Len(Sub(b, i))
RECURSIVE Extend(_, _)
Extend(outs, n) == IF Len(outs) > n THEN outs ELSE Extend(Append(outs, <<>>), n)

\* the data present bitmap of the first n elements that have (or lack) attribute a
RECURSIVE Elems(_, _)
Elems(vs, k) == IF k > Len(vs) THEN <<>> ELSE IF F(vs[k].c) # 0 THEN Elems(vs, k + 1) ELSE <<vs[k]>> \o Elems(vs, k + 1)
PresentMap(vs, n, a) ==
  LET es == Elems(vs, 1)
  IN [k \in 1..n |-> IF k <= Len(es) /\ (IF k <= Len(es) THEN FindAttr(es[k].at, a).found ELSE FALSE) THEN 43 ELSE 45]

RECURSIVE Without(_, _)
Without(at, c) == IF at = <<>> THEN <<>> ELSE IF Head(at).c = c THEN Tail(at) ELSE <<Head(at)>> \o Without(Tail(at), c)

MapVar(c, n, tx) == TextVar(c, n, tx) @@ [len |-> n, un |-> "CCITTIA5"]
Strict == [sil |-> 0, cla |-> 0, hook |-> ""]
Add(b, i, v) == [b EXCEPT !.outs[i + 1] = Append(@, v)]

-----------------------------------------------------------------------------
(* Comparison: everything counts but compression, which is not a property of *)
(* the contents                                                              *)
SameSubset(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : SameVar(s[k], t[k])
SameBulletin(a, b) ==
  /\ a.kind = b.kind
  /\ [a.h EXCEPT !.comp = 0] = [b.h EXCEPT !.comp = 0]
  /\ a.opt = b.opt /\ a.desc = b.desc /\ a.tabs = b.tabs
  /\ Len(a.outs) = Len(b.outs)
  /\ \A k \in 1..Len(a.outs) : SameSubset(a.outs[k], b.outs[k])

-----------------------------------------------------------------------------
(* Operations: q.s is the slot, counted from 1; positions inside bulletins   *)
(* count from 0                                                              *)
Questions == {"print", "structured", "datadesc", "details", "encode", "validate", "features"}

Good(sl, q, b) == [sl |-> TLCEval([sl EXCEPT ![q.s] = b]), r |-> "ok"]
Bad(sl) == [sl |-> sl, r |-> "err"]

\* operations that can be applied: histories have no other
Can(sl, q) ==
  CASE q.op \in {"new", "decode", "verbose", "load", "seen"} -> TRUE
    [] q.op \in {"undef", "int"} -> sl[q.s] # None /\ HasSub(sl[q.s], q.i) /\ sl[q.s].tabs /\ sl[q.s].kind = "bufr"
    [] q.op \in Questions \ {"details"} -> sl[q.s] # None /\ sl[q.s].tabs
    [] q.op \in {"tables", "opt"} -> sl[q.s] # None /\ sl[q.s].kind = "bufr"
    [] q.op = "set" -> sl[q.s] # None /\ (q.f = "comp" => sl[q.s].kind = "bufr") /\ (q.f \in {"bv", "cd"} => sl[q.s].kind = "crex")
    [] q.op \in {"add", "pop", "map", "fixedmap", "copysub"} -> sl[q.s] # None /\ HasSub(sl[q.s], q.i)
    [] q.op \in {"put", "attr", "noattr", "poke"} -> sl[q.s] # None /\ HasVarAt(sl[q.s], q.i, q.j)
    [] q.op = "diff" -> sl[q.s] # None /\ sl[q.t] # None
    [] OTHER -> sl[q.s] # None

Does(sl, tab, q) ==
  LET b == sl[q.s] IN
  CASE q.op = "new" -> Good(sl, q, NewBulletin(q.kind))
    [] q.op = "clear" -> Good(sl, q, NewBulletin(b.kind))
    [] q.op = "set" -> Good(sl, q, [b EXCEPT !.h[q.f] = q.n])
    [] q.op = "opt" -> Good(sl, q, [b EXCEPT !.opt = q.l])
    [] q.op = "desc" -> Good(sl, q, [b EXCEPT !.desc = q.l])
    \* the tables installed serve one master table and its older versions
    [] q.op = "tables" -> IF b.h.mt = 0 /\ b.h.mtv <= tab.mtv THEN Good(sl, q, [b EXCEPT !.tabs = TRUE]) ELSE Bad(sl)
    \* subsets need tables
    [] q.op = "obtain" -> IF b.tabs \/ HasSub(b, q.i) THEN Good(sl, q, [b EXCEPT !.outs = Extend(@, q.i)]) ELSE Bad(sl)
    \* a different value, stored in place
    [] q.op = "poke" ->
         LET v == b.outs[q.i + 1][q.j + 1]
             x == IF q.y = "u" THEN OK(Unset(v)) ELSE IF q.y = "i" THEN StoreInt(v, N(q.n), Strict) ELSE StoreChars(v, q.l, Strict)
         IN [sl |-> TLCEval([sl EXCEPT ![q.s].outs[q.i + 1][q.j + 1] = x.v]), r |-> x.st]
    [] q.op = "subset" -> IF HasSub(b, q.i) THEN [sl |-> sl, r |-> "ok"] ELSE Bad(sl)
    [] q.op = "add" -> Good(sl, q, Add(b, q.i, q.v))
    [] q.op = "undef" -> IF Has(tab, q.c) THEN Good(sl, q, Add(b, q.i, Fresh(Entry(tab, q.c)))) ELSE Bad(sl)
    [] q.op = "int" -> IF ~Has(tab, q.c) THEN Bad(sl)
                       ELSE LET e == Entry(tab, q.c) IN
                            IF InRange(e, N(q.n)) THEN Good(sl, q, Add(b, q.i, SetN(Fresh(e), N(q.n)))) ELSE Bad(sl)
    [] q.op = "pop" -> Good(sl, q, [b EXCEPT !.outs[q.i + 1] = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)])
    [] q.op = "put" -> Good(sl, q, [b EXCEPT !.outs[q.i + 1][q.j + 1] = q.v])
    [] q.op = "attr" -> Good(sl, q, [b EXCEPT !.outs[q.i + 1][q.j + 1] = SetAttr(@, q.v)])
    [] q.op = "noattr" -> Good(sl, q, [b EXCEPT !.outs[q.i + 1][q.j + 1].at = Without(@, q.c)])
    [] q.op = "map" -> Good(sl, q, Add(b, q.i, MapVar(q.c, q.n, PresentMap(Sub(b, q.i), q.n, q.a))))
    [] q.op = "fixedmap" -> Good(sl, q, Add(b, q.i, MapVar(q.c, q.n, [k \in 1..q.n |-> 43])))
    [] q.op = "copysub" -> Good(sl, q, [b EXCEPT !.outs = [Extend(@, q.j) EXCEPT ![q.j + 1] = b.outs[q.i + 1]]])
    [] OTHER -> [sl |-> sl, r |-> "ok"]
=============================================================================
