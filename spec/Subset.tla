------------------------------- MODULE Subset -------------------------------
(* Subsets: sequences of variables made with the tables of their bulletin.   *)
(* The state is [v, u]: v some loose variables, as in Var, and u subsets     *)
(* [t, vs]: the tables the subset was made with (0: no subset) and what it   *)
(* holds. Outcomes2(x, o) is the set of [x, r] that operation o may give.    *)
EXTENDS Var

NoSubset == [t |-> 0, vs |-> <<>>]
LooseOps == {"new", "newi", "newd", "news", "newv", "seti", "setd", "sets", "seta", "unset", "copy"}

\* what the tables of subset u say of the code that o asks for: o.e has an entry for each of the tables
Known(u, o) == o.e[u.t].c >= 0

At(vs, k) == IF vs = <<>> THEN 0 ELSE (k % Len(vs)) + 1
Is0(v) == F(v.c) = 0
\* which of the first n variables with data have attribute c
Marked(vs, n, c) == LET ds == SelectSeq(vs, Is0)
                    IN [k \in 1..n |-> IF k <= Len(ds) /\ FindAttr(ds[k].at, c).found THEN 43 ELSE 45]
RECURSIVE Marks(_)
Marks(t) == IF t = <<>> THEN 0 ELSE (IF Head(t) = 43 THEN 1 ELSE 0) + Marks(Tail(t))
Bitmap(c, t) == [c |-> c, y |-> "s", sc |-> 0, bl |-> Len(t) * 8, rf |-> Zero, len |-> Len(t), un |-> "CCITTIA5",
                 set |-> 1, v |-> Zero, tx |-> t, at |-> <<>>]

SameSubset(u, w) == Len(u.vs) = Len(w.vs) /\ \A k \in 1..Len(u.vs) : SameVar(u.vs[k], w.vs[k])

-----------------------------------------------------------------------------
Answer(x, r) == {[x |-> x, r |-> r]}
Failed(x) == Answer(x, [R0 EXCEPT !.st = "err", !.cls = "other"])
WithSubset(x, a, u) == [x EXCEPT !.u[a] = u]
With(x, a, vs) == [x EXCEPT !.u[a].vs = vs]
\* y: from the Store operators; what cannot be made is not added
Stored(x, a, y) == IF y.st = "err" THEN [x |-> x, r |-> [R0 EXCEPT !.st = "err", !.cls = y.cls]]
                   ELSE [x |-> With(x, a, Append(x.u[a].vs, y.v)), r |-> [R0 EXCEPT !.hk = y.hk]]

Outcomes2(x, o) ==
  LET a == o.a
      u == x.u[a]
      w == IF o.b > 0 /\ o.b <= Len(x.u) THEN x.u[o.b] ELSE NoSubset     \* the other subset
      z == IF o.b > 0 /\ o.b <= Len(x.v) THEN x.v[o.b] ELSE None         \* or the variable
      k == At(u.vs, o.k)
  IN CASE o.op \in LooseOps -> {[x |-> [x EXCEPT !.v = y.s], r |-> y.r] : y \in Outcomes(x.v, o)}
       [] o.op = "s-new" -> Answer(WithSubset(x, a, [t |-> o.t, vs |-> <<>>]), R0)
       [] o.op = "s-bad" -> Failed(x)
       [] o.op \in {"s-copy", "s-assign"} -> Answer(WithSubset(x, a, w), R0)
       \* the driver clears what was moved from
       [] o.op \in {"s-move", "s-massign"} ->
            IF a = o.b THEN Answer(x, R0)
            ELSE Answer([x EXCEPT !.u[a] = w, !.u[o.b].vs = <<>>], R0)
       [] o.op = "s-clear" -> Answer(With(x, a, <<>>), R0)
       [] o.op = "s-var" -> Answer(With(x, a, Append(u.vs, z)), R0)
       [] o.op = "s-varm" -> Answer([With(x, a, Append(u.vs, z)) EXCEPT !.v[o.b] = NoAttrs(Unset(z))], R0)
       [] o.op = "s-undefi" -> LET i == InfoOf(o.q) IN Answer(With(x, a, Append(u.vs, Fresh(i))), R0)
       [] o.op \in {"s-code", "s-i", "s-d", "s-c", "s-undef"} ->
            IF ~Known(u, o) THEN Failed(x)
            ELSE LET f == Fresh(o.e[u.t])
                 IN {Stored(x, a, y) : y \in
                      CASE o.op = "s-code" -> {WithAttrs(y, z.at) : y \in StoreValue(f, z, o.p)}
                        [] o.op = "s-i" -> {StoreInt(f, o.n, o.p)}
                        [] o.op = "s-d" -> StoreDecimal(f, o.d, o.p)
                        [] o.op = "s-c" -> {StoreChars(f, o.tx, o.p)}
                        [] o.op = "s-undef" -> {OK(f)}}
       [] o.op = "s-dpb" -> LET t == Marked(u.vs, o.k, o.c)
                            IN Answer(With(x, a, Append(u.vs, Bitmap(o.cc, t))), [R0 EXCEPT !.n = N(Marks(t))])
       [] o.op = "s-fix" -> Answer(With(x, a, Append(u.vs, Bitmap(o.cc, Rep(43, o.k)))), R0)
       \* tables of the same name, for BUFR and for CREX, may be told apart or not
       [] o.op = "s-diff" ->
            IF u.t # w.t /\ {u.t, w.t} # {1, 3} THEN Answer(x, [R0 EXCEPT !.b = 1])
            ELSE Answer(x, [R0 EXCEPT !.b = IF SameSubset(u, w) THEN 0 ELSE 1])
                 \cup (IF u.t # w.t THEN Answer(x, [R0 EXCEPT !.b = 1]) ELSE {})
       \* the variables in the subset
       [] o.op = "e-seta" -> Answer(IF k = 0 THEN x ELSE [x EXCEPT !.u[a].vs[k] = SetAttr(@, z)], R0)
       [] o.op = "e-unset" -> Answer(IF k = 0 THEN x ELSE [x EXCEPT !.u[a].vs[k] = Unset(@)], R0)
       [] o.op = "e-get" -> Answer(IF k = 0 THEN x ELSE [x EXCEPT !.v[o.b] = u.vs[k]], R0)

Applies2(x, o) ==
  CASE o.op \in LooseOps -> Applies(x.v, o)
    [] o.op \in {"s-new", "s-bad"} -> TRUE
    [] o.op \in {"s-copy", "s-move"} -> x.u[o.b].t > 0
    [] o.op \in {"s-assign", "s-massign", "s-diff"} -> x.u[o.a].t > 0 /\ x.u[o.b].t > 0
    [] o.op \in {"s-var", "s-varm", "s-code", "e-seta", "e-get"} -> x.u[o.a].t > 0 /\ x.v[o.b] # None
    [] OTHER -> x.u[o.a].t > 0

SoundState(x) == /\ \A i \in 1..Len(x.v) : Sound(x.v[i])
                 /\ \A i \in 1..Len(x.u) : \A k \in 1..Len(x.u[i].vs) : Sound(x.u[i].vs[k])
=============================================================================
