------------------------------ MODULE Describe ------------------------------
(* What is said of a list of descriptors without any data: which features it  *)
(* uses, and its listing, where groups and replications are followed by their  *)
(* contents, indented. Data present bitmaps are part of the operator they      *)
(* follow and are not listed.                                                  *)
EXTENDS Elements, Sequences

Letters == <<"B", "R", "C", "D">>
Dec2(v) == (IF v < 10 THEN "0" ELSE "") \o ToString(v)
Dec3(v) == (IF v < 100 THEN "0" ELSE "") \o Dec2(v)
Name(c) == Letters[F(c) + 1] \o Dec2(X(c)) \o Dec3(Y(c))
Figures(c) == ToString(F(c)) \o Dec2(X(c)) \o Dec3(Y(c))
RECURSIVE Blanks(_)
Blanks(n) == IF n = 0 THEN "" ELSE " " \o Blanks(n - 1)
Sig == Code(0, 31, 21)
Map == Code(0, 31, 31)
Factor == Code(0, 31, 12)

\* what an operator is said to do; nxt: the descriptors that follow
Change(y) == IF y = 0 THEN 0 ELSE y - 128
Says(c, nxt) ==
  CASE X(c) = 1 -> "change data width to " \o ToString(Change(Y(c)))
    [] X(c) = 2 -> "change data scale to " \o ToString(Change(Y(c)))
    [] X(c) = 4 -> ToString(Y(c)) \o " bits of associated field"
    [] X(c) = 5 -> "character data"
    [] X(c) = 6 -> "local descriptor " \o (IF nxt = <<>> THEN "(unknown)" ELSE Figures(Head(nxt))) \o " " \o ToString(Y(c)) \o " bits long"
    [] X(c) = 7 -> "change data scale, reference value and data width by " \o ToString(Y(c))
    [] X(c) = 8 -> "change width of string fields to " \o ToString(Y(c))
    [] X(c) = 22 -> "quality information with bitmap"
    [] X(c) = 23 -> IF Y(c) = 0 THEN "substituted values bitmap" ELSE "one substituted value"
    [] X(c) = 36 -> "define data present bitmap for reuse"
    [] X(c) = 37 -> IF Y(c) = 0 THEN "reuse last data present bitmap" ELSE "cancel reuse of the last defined bitmap"
    [] OTHER -> "(C modifier)"
Entered(tab, c) == Figures(c) \o " ELEMENT " \o Name(c) \o "[" \o Entry(tab, c).un \o "]"

(* A walk: ok: the list makes sense so far; pend: a bitmap is announced; af:   *)
(* bits of associated field; fs: features; ls: lines; open: has parts that     *)
(* messages may never use                                                      *)
Start == [ok |-> TRUE, pend |-> FALSE, af |-> 0, fs |-> {}, ls |-> <<>>, open |-> FALSE]
Bad(s) == [s EXCEPT !.ok = FALSE]
Line(s, ind, t) == [s EXCEPT !.ls = Append(@, Blanks(ind) \o t)]

RECURSIVE Walk(_, _, _, _)
Walk(tab, ops, ind, s) ==
  IF ~s.ok \/ ops = <<>> THEN s
  ELSE LET c == Head(ops)
           rest == Tail(ops)
           go(o, x) == Walk(tab, o, ind, x)
  IN CASE F(c) = 0 -> IF Has(tab, c) THEN go(rest, Line(s, ind, Entered(tab, c))) ELSE Bad(s)
       [] F(c) = 1 ->
            LET explicit == Y(c) = 0 /\ rest # <<>> /\ F(Head(rest)) = 0 /\ X(Head(rest)) = 31
                dc == IF explicit THEN Head(rest) ELSE Factor
                body == IF explicit THEN Tail(rest) ELSE rest
            IN IF Len(body) < X(c) THEN Bad(s)
               ELSE LET inner == SubSeq(body, 1, X(c))
                        after == SubSeq(body, X(c) + 1, Len(body))
                    IN IF s.pend
                       THEN IF inner # <<Map>> THEN Bad(s) ELSE go(after, [s EXCEPT !.pend = FALSE])
                       ELSE LET t == IF Y(c) = 0 THEN " (delayed " \o Figures(dc) \o ") times" ELSE " " \o ToString(Y(c)) \o " times"
                                x == [Line(s, ind, Figures(c) \o " replicate " \o ToString(X(c)) \o " descriptors" \o t)
                                      EXCEPT !.fs = @ \cup {IF Y(c) = 0 THEN "Rxx000:" \o Name(dc) ELSE "Rxxyyy"},
                                             !.open = @ \/ Y(c) = 0]
                            IN go(after, Walk(tab, inner, ind + 2, x))
       [] F(c) = 2 ->
            LET x == [Line(s, ind, Figures(c) \o " " \o Says(c, rest)) EXCEPT !.fs = @ \cup
                      {IF X(c) = 6 /\ rest # <<>> THEN Name(c) \o ":" \o Name(Head(rest)) ELSE Name(c)}]
            IN CASE X(c) = 3 -> IF Y(c) \in 33..254 THEN Bad(s) ELSE go(rest, x)
                 [] X(c) = 4 ->
                      IF Y(c) = 0 THEN go(rest, [x EXCEPT !.af = 0])
                      ELSE IF s.af > 0 \/ Y(c) > 32 \/ rest = <<>> THEN Bad(s)
                      ELSE IF Head(rest) # Sig \/ ~Has(tab, Sig) THEN Bad(s)
                      ELSE go(Tail(rest), Line([x EXCEPT !.af = Y(c)], ind, Entered(tab, Sig)))
                 [] X(c) = 6 -> IF rest = <<>> THEN Bad(s) ELSE go(Tail(rest), x)
                 [] X(c) = 22 -> IF Y(c) # 0 THEN Bad(s) ELSE go(rest, [x EXCEPT !.pend = TRUE])
                 [] X(c) = 23 -> IF Y(c) = 0 THEN go(rest, [x EXCEPT !.pend = TRUE])
                                 ELSE IF Y(c) = 255 THEN go(rest, x) ELSE Bad(s)
                 [] X(c) = 37 -> IF Y(c) = 0 THEN go(rest, [x EXCEPT !.pend = FALSE])
                                 ELSE IF Y(c) = 255 THEN go(rest, x) ELSE Bad(s)
                 [] OTHER -> go(rest, x)
       [] OTHER ->
            IF ~HasD(tab, c) THEN Bad(s)
            ELSE go(rest, Walk(tab, Expansion(tab, c), ind + 2, Line(s, ind, Figures(c) \o " (group)")))
=============================================================================
