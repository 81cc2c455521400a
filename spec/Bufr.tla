-------------------------------- MODULE Bufr --------------------------------
(* The BUFR data section: how a list of data descriptors drives the reading *)
(* (mode "dec") or the writing (mode "enc") of variables, one descriptor    *)
(* per step.                                                                 *)
(*                                                                           *)
(* A machine state is a record:                                              *)
(*   mode   "dec", "enc" or "val": walk the variables as the encoder does,   *)
(*          writing nothing, and insist on their codes                       *)
(*   st     "run", "ok", "err" (the library must report an error), "any"     *)
(*          (enc: variables do not match the descriptors, the outcome is not  *)
(*          prescribed) or "bad" (enc: the bytes written are not the          *)
(*          prescribed ones)                                                  *)
(*   d      the bytes of the message; pos, lim: next bit, first bit not      *)
(*          available                                                        *)
(*   tab    [B, D]: element and sequence tables                              *)
(*   desc   the data descriptors; nsub: subsets; comp: compressed            *)
(*   undef  whether missing associated fields add undefined attributes       *)
(*   sub    subset being processed; stack: frames of descriptors to do       *)
(*   m      operators in effect; af: associated field; bm: bitmaps           *)
(*   outs   dec: the subsets decoded so far; enc: the subsets to encode      *)
(*   vi     enc: variables of the subset already encoded                     *)
(*   fields enc: the fields written, when keep is set (model checking only)  *)
EXTENDS Elements

CONSTANT Keep      \* TRUE: collect the fields written; FALSE: compare with d

B31012 == Code(0, 31, 12)
B31021 == Code(0, 31, 21)
B31031 == Code(0, 31, 31)

\* rf * 10^k, or <<>> when that is not a 32-bit integer
RECURSIVE RefTimes(_, _)
RefTimes(rf, k) == IF NLt(rf, IntMin) \/ NLt(IntMax, rf) THEN <<>>
                   ELSE IF k = 0 THEN rf ELSE RefTimes(NMul10(rf), k - 1)

\* the operators apply to plain numeric elements only; C08 to text only
Effective(s, c) ==
  IF ~Has(s.tab, c) THEN Refused
  ELSE LET i == Entry(s.tab, c)
           plain == i.u = "n"
           sc == IF plain THEN i.sc + s.m.s + s.m.r ELSE i.sc
           bl == IF i.y = "s" /\ s.m.l # 0 THEN 8 * s.m.l
                 ELSE IF plain THEN i.bl + s.m.w + (IF s.m.r = 0 THEN 0 ELSE (10 * s.m.r + 2) \div 3)
                 ELSE i.bl
           rf == IF c \in DOMAIN s.m.ov THEN s.m.ov[c]
                 ELSE IF plain /\ s.m.r \in 1..9 THEN RefTimes(i.rf, s.m.r) ELSE i.rf
       IN IF rf = <<>> \/ (plain /\ s.m.r > 9) THEN Refused ELSE Altered(i, sc, bl, rf)

NoOps == [w |-> 0, s |-> 0, r |-> 0, l |-> 0, b03 |-> 0, ov |-> <<>>]
NoField == [n |-> 0, sig |-> 63]
NoMap == [on |-> FALSE, refs |-> <<>>, i |-> 0]
NoMaps == [pend |-> 0, cur |-> NoMap, last |-> NoMap]

\* delayed replication factors have no missing value
NeverMissing(c) == F(c) = 0 /\ X(c) = 31 /\ Y(c) \in {0, 1, 2, 11, 12}

-----------------------------------------------------------------------------
(* Reading one uncompressed element: [ok, var, pos]                          *)
Fail == [ok |-> FALSE]
\* a bound far beyond anything that fits in a message, to keep sums small
Avail(s, n) == n <= s.lim - s.pos

TextOf(i, raw) == IF AllMissing(raw) THEN Var0(i)
                  ELSE VarT(i, CutNul(SubSeq(TrimRight(raw), 1,
                        IF Len(TrimRight(raw)) < i.len THEN Len(TrimRight(raw)) ELSE i.len), 1))

NumberOf(i, raw, nomiss) ==
  IF i.bl = 0 THEN Fail
  ELSE IF ~nomiss /\ raw = AllOnes(i.bl) THEN [ok |-> TRUE, var |-> Var0(i)]
  ELSE IF ~InRange(i, NAdd(raw, i.rf)) THEN Fail
  ELSE [ok |-> TRUE, var |-> VarN(i, NAdd(raw, i.rf))]

ReadElement(s, i) ==
  IF ~Avail(s, i.bl) THEN Fail
  ELSE IF i.y = "s" THEN [ok |-> TRUE, pos |-> s.pos + i.bl, var |-> TextOf(i, BitBytes(s.d, s.pos, i.bl))]
  ELSE IF i.y = "b"
  THEN LET t == BitBytes(s.d, s.pos, i.bl)
           miss == \A k \in 1..Len(t) : t[k] = (IF 8 * k <= i.bl THEN 255 ELSE P2[i.bl % 8] - 1)
       IN [ok |-> TRUE, pos |-> s.pos + i.bl, var |-> IF miss THEN Var0(i) ELSE VarT(i, t)]
  ELSE LET r == NumberOf(i, Bits(s.d, s.pos, i.bl), NeverMissing(i.c))
       IN IF r.ok THEN [ok |-> TRUE, pos |-> s.pos + i.bl, var |-> r.var] ELSE Fail

(* Reading one compressed element: [ok, vars, pos], one variable per subset *)
RECURSIVE ReadDiffs(_, _, _, _, _, _)
ReadDiffs(s, i, base, nb, p, acc) ==
  IF Len(acc) = s.nsub THEN [ok |-> TRUE, vars |-> acc, pos |-> p]
  ELSE IF nb > s.lim - p THEN Fail
  ELSE LET diff == Bits(s.d, p, nb)
           r == IF diff = AllOnes(nb) THEN [ok |-> TRUE, var |-> Var0(i)]
                ELSE NumberOf(i, NAdd(base, diff), FALSE)
       IN IF ~r.ok THEN Fail ELSE ReadDiffs(s, i, base, nb, p + nb, Append(acc, r.var))

RECURSIVE ReadTexts(_, _, _, _, _)
ReadTexts(s, i, nb, p, acc) ==
  IF Len(acc) = s.nsub THEN [ok |-> TRUE, vars |-> acc, pos |-> p]
  ELSE IF nb > s.lim - p THEN Fail
  ELSE ReadTexts(s, i, nb, p + nb, Append(acc, TextOf(i, BitBytes(s.d, p, nb))))

Same(s, v) == TLCEval([k \in 1..s.nsub |-> v])

ReadCompressed(s, i) ==
  IF i.y = "b" \/ ~Avail(s, i.bl + 6) THEN Fail
  ELSE LET nb == Small(s.d, s.pos + i.bl, 6)
           p == s.pos + i.bl + 6
       IN IF i.y = "s"
          THEN IF nb = 0 THEN [ok |-> TRUE, pos |-> p, vars |-> Same(s, TextOf(i, BitBytes(s.d, s.pos, i.bl)))]
               ELSE IF 8 * nb > i.bl THEN Fail
               ELSE ReadTexts(s, i, 8 * nb, p, <<>>)
          ELSE LET base == Bits(s.d, s.pos, i.bl)
               IN IF base = AllOnes(i.bl)
                  THEN IF nb # 0 THEN Fail ELSE [ok |-> TRUE, pos |-> p, vars |-> Same(s, Var0(i))]
                  ELSE IF nb = 0
                  THEN LET r == NumberOf(i, base, FALSE)
                       IN IF r.ok THEN [ok |-> TRUE, pos |-> p, vars |-> Same(s, r.var)] ELSE Fail
                  ELSE IF nb > 32 THEN Fail
                  ELSE ReadDiffs(s, i, base, nb, p, <<>>)

(* A value that must be the same in all subsets: [ok, var, pos]              *)
ReadUniform(s, i) ==
  IF ~s.comp THEN ReadElement(s, i)
  ELSE IF i.y = "s"
  THEN LET r == ReadCompressed(s, i)
       IN IF r.ok /\ \A k \in 1..s.nsub : r.vars[k] = r.vars[1]
          THEN [ok |-> TRUE, pos |-> r.pos, var |-> r.vars[1]] ELSE Fail
  ELSE IF i.y = "b" \/ ~Avail(s, i.bl + 6) \/ Small(s.d, s.pos + i.bl, 6) # 0 THEN Fail
  ELSE LET r == NumberOf(i, Bits(s.d, s.pos, i.bl), NeverMissing(i.c))
       IN IF r.ok THEN [ok |-> TRUE, pos |-> s.pos + i.bl + 6, var |-> r.var] ELSE Fail

-----------------------------------------------------------------------------
(* Writing: fields are [n, v] with v wide; n <= 32                            *)

Ones(n) == [k \in 1..((n + 7) \div 8) |->
              IF 8 * k <= n THEN [n |-> 8, v |-> N(255)] ELSE [n |-> n % 8, v |-> N(P2[n % 8] - 1)]]
Padded(tx, n) == [k \in 1..(n \div 8) |-> [n |-> 8, v |-> N(IF k <= Len(tx) THEN tx[k] ELSE 32)]]

\* v as a scaled integer under the scale of i: [ok, n, m], m different from n for ties
Rescaled(i, v) ==
  LET k == i.sc - v.sc IN
  IF k = 0 \/ v.v = Zero THEN [ok |-> TRUE, n |-> v.v, m |-> v.v]
  ELSE IF k > 0
  THEN IF k > 10 \/ NLt(Pow2(34), NScale10(NAbs(v.v), IF k > 10 THEN 0 ELSE k)) THEN Fail
       ELSE [ok |-> TRUE, n |-> NScale10(v.v, k), m |-> NScale10(v.v, k)]
  ELSE IF k < -8 \/ ~NFits30(v.v) THEN [ok |-> TRUE, n |-> Zero, m |-> Zero, far |-> TRUE]
  ELSE LET p == 10 ^ (-k)
           q == NInt(v.v) \div p
           r == NInt(v.v) % p
       IN IF 2 * r < p THEN [ok |-> TRUE, n |-> N(q), m |-> N(q)]
          ELSE IF 2 * r > p THEN [ok |-> TRUE, n |-> N(q + 1), m |-> N(q + 1)]
          ELSE [ok |-> TRUE, n |-> N(q), m |-> N(q + 1)]

Kind(y) == IF y \in {"i", "d"} THEN "n" ELSE y

\* the fields of variable v under descriptor i: [ok, fs]; any: anything but a crash will do,
\* because the variable is not the one the descriptor asks for
Write(i, v) ==
  IF v.set = 0 THEN [ok |-> TRUE, fs |-> Ones(i.bl)]
  ELSE IF v.c # i.c \/ Kind(v.y) # Kind(i.y) \/ (v.y = "b" /\ v.bl # i.bl) THEN [ok |-> TRUE, any |-> TRUE]
  ELSE IF i.y = "s" THEN [ok |-> TRUE, fs |-> Padded(v.tx, i.bl)]
  ELSE IF i.y = "b"
  THEN [ok |-> TRUE, fs |-> [k \in 1..((i.bl + 7) \div 8) |->
            IF 8 * k <= i.bl THEN [n |-> 8, v |-> N(v.tx[k])]
            ELSE [n |-> i.bl % 8, v |-> N(v.tx[k] % P2[i.bl % 8])]]]
  ELSE IF i.bl = 0 THEN Fail
  ELSE LET w == Rescaled(i, v) IN
       IF ~w.ok THEN Fail
       ELSE IF w.n # w.m \/ "far" \in DOMAIN w THEN [ok |-> TRUE, any |-> TRUE]
       ELSE LET raw == NSub(w.n, i.rf)
       IN IF NIsNeg(raw) \/ NLt(AllOnes(i.bl), raw) THEN Fail
          ELSE IF raw = AllOnes(i.bl) /\ X(i.c) # 31 THEN Fail
          ELSE [ok |-> TRUE, fs |-> <<[n |-> i.bl, v |-> raw]>>]

\* a validator insists on the code of the variable
WriteVar(s, i, v) == IF s.mode = "val" /\ v.c # i.c THEN Fail ELSE Write(i, v)

RECURSIVE Matches(_, _, _, _)
Matches(s, p, fs, k) ==
  IF k > Len(fs) THEN TRUE
  ELSE fs[k].n <= s.lim - p /\ Bits(s.d, p, fs[k].n) = fs[k].v /\ Matches(s, p + fs[k].n, fs, k + 1)
RECURSIVE Width(_, _)
Width(fs, k) == IF k > Len(fs) THEN 0 ELSE fs[k].n + Width(fs, k + 1)

Err(s) == [s EXCEPT !.st = "err"]
Emit(s, w) ==
  IF ~w.ok THEN Err(s)
  ELSE IF "any" \in DOMAIN w THEN [s EXCEPT !.st = "any"]
  ELSE IF Keep THEN [s EXCEPT !.fields = @ \o w.fs, !.pos = @ + Width(w.fs, 1)]
  \* lim 0: there is nothing to compare with
  ELSE IF s.lim = 0 \/ s.mode = "val" \/ Matches(s, s.pos, w.fs, 1) THEN [s EXCEPT !.pos = @ + Width(w.fs, 1)]
  ELSE [s EXCEPT !.st = "bad"]

-----------------------------------------------------------------------------
(* Descriptor stack                                                          *)

Top(s) == s.stack[Len(s.stack)]
Ops(s) == Top(s).ops
Cur(s) == Head(Ops(s))
SetOps(s, ops) == [s EXCEPT !.stack[Len(s.stack)].ops = ops]
Push(s, body, times) == [s EXCEPT !.stack = Append(@, [ops |-> body, body |-> body, left |-> times - 1])]

Running(s) == s.st = "run" /\ s.stack # <<>>
AtOp(s) == Running(s) /\ Ops(s) # <<>>

-----------------------------------------------------------------------------
(* Adding variables (dec) / taking them (enc)                                *)

Append1(s, v) == [s EXCEPT !.outs[s.sub] = Append(@, v)]
AppendAll(s, vs) == [s EXCEPT !.outs = TLCEval([k \in 1..s.nsub |-> Append(@[k], vs[k])])]
RefSubset(s) == s.outs[s.sub]

HasVar(s) == s.vi < Len(s.outs[s.sub])
NextVar(s) == s.outs[s.sub][s.vi + 1]
Took(s) == [s EXCEPT !.vi = @ + 1]

(* Significance of associated fields: which attribute, and whether a missing *)
(* value still gives an (unset) attribute.                                   *)
FieldAttr(sig) == CASE sig \in {1, 8} -> Code(0, 33, 2)
                    [] sig = 2 -> Code(0, 33, 3)
                    [] sig = 6 -> Code(0, 33, 50)
                    [] sig = 7 -> Code(0, 33, 40)
                    [] sig = 21 -> Code(0, 33, 41)
                    [] OTHER -> 0
KeepsMissing(s) == s.undef \/ s.af.sig \in {1, 2, 7}

\* [ok, has, a]: attribute for the raw associated field value
FieldValue(s, raw) ==
  LET c == FieldAttr(s.af.sig) IN
  IF s.af.sig = 0 \/ s.af.sig > 63 THEN Fail
  ELSE IF c = 0 THEN [ok |-> TRUE, has |-> FALSE]
  ELSE IF raw = AllOnes(s.af.n)
       THEN IF ~KeepsMissing(s) THEN [ok |-> TRUE, has |-> FALSE]
            ELSE IF ~Has(s.tab, c) THEN Fail
            ELSE [ok |-> TRUE, has |-> TRUE, a |-> Var0(Entry(s.tab, c))]
  ELSE IF ~Has(s.tab, c) THEN Fail
  ELSE LET i == Entry(s.tab, c) IN
       IF ~InRange(i, raw) THEN Fail
       ELSE [ok |-> TRUE, has |-> TRUE, a |-> VarN(i, raw)]

WithField(v, fv) == IF fv.has THEN SetAttr(v, fv.a) ELSE v

RECURSIVE ReadFieldDiffs(_, _, _, _, _)
ReadFieldDiffs(s, base, nb, p, acc) ==
  IF Len(acc) = s.nsub THEN [ok |-> TRUE, fvs |-> acc, pos |-> p]
  ELSE IF nb > s.lim - p THEN Fail
  ELSE LET sum == NAdd(base, Bits(s.d, p, nb))
           fv == FieldValue(s, sum)
       IN IF ~fv.ok \/ NLt(AllOnes(32), sum) THEN Fail ELSE ReadFieldDiffs(s, base, nb, p + nb, Append(acc, fv))

(* A plain element i, with or without associated field                       *)
DoElement(s, i, withfield) ==
  IF s.mode = "dec"
  THEN IF ~withfield
       THEN IF s.comp
            THEN LET r == ReadCompressed(s, i)
                 IN IF r.ok THEN AppendAll([s EXCEPT !.pos = r.pos], r.vars) ELSE Err(s)
            ELSE LET r == ReadElement(s, i)
                 IN IF r.ok THEN Append1([s EXCEPT !.pos = r.pos], r.var) ELSE Err(s)
       ELSE IF ~s.comp
       THEN IF ~Avail(s, s.af.n) THEN Err(s)
            ELSE LET fv == FieldValue(s, Bits(s.d, s.pos, s.af.n))
                     s2 == [s EXCEPT !.pos = @ + s.af.n]
                     r == ReadElement(s2, i)
                 IN IF fv.ok /\ r.ok THEN Append1([s2 EXCEPT !.pos = r.pos], WithField(r.var, fv)) ELSE Err(s)
       ELSE IF ~Avail(s, s.af.n + 6) THEN Err(s)
            ELSE LET base == Bits(s.d, s.pos, s.af.n)
                     nb == Small(s.d, s.pos + s.af.n, 6)
                     p == s.pos + s.af.n + 6
                     none == base = AllOnes(s.af.n)
                     f == IF none
                          THEN IF nb # 0 THEN Fail
                               ELSE LET fv == FieldValue(s, base)
                                    IN IF fv.ok THEN [ok |-> TRUE, pos |-> p, fvs |-> Same(s, fv)] ELSE Fail
                          ELSE IF nb > 32 THEN Fail
                          ELSE ReadFieldDiffs(s, base, nb, p, <<>>)
                 IN IF ~f.ok THEN Err(s)
                    ELSE LET s2 == [s EXCEPT !.pos = f.pos]
                             r == ReadCompressed(s2, i)
                         IN IF r.ok
                            THEN AppendAll([s2 EXCEPT !.pos = r.pos], TLCEval([k \in 1..s.nsub |-> WithField(r.vars[k], f.fvs[k])]))
                            ELSE Err(s)
  ELSE IF ~HasVar(s) THEN Err(s)
  ELSE LET v == NextVar(s)
           c == FieldAttr(s.af.sig)
           fa == IF c = 0 THEN [found |-> FALSE] ELSE FindAttr(v.at, c)
           s1 == IF ~withfield THEN s
                 ELSE IF s.af.sig = 0 \/ s.af.sig > 63 THEN Err(s)
                 ELSE IF fa.found /\ fa.a.set = 1
                 THEN IF NIsNeg(fa.a.v) \/ ~NLt(fa.a.v, AllOnes(s.af.n)) THEN Err(s)
                      ELSE Emit(s, [ok |-> TRUE, fs |-> <<[n |-> s.af.n, v |-> fa.a.v]>>])
                 ELSE Emit(s, [ok |-> TRUE, fs |-> Ones(s.af.n)])
       IN IF s1.st # "run" THEN s1 ELSE Took(Emit(s1, WriteVar(s1, i, v)))

(* An attribute for the variable at position p (1-based) of the subset       *)
DoAttribute(s, i, p) ==
  IF s.mode = "dec"
  THEN IF s.comp
       THEN LET r == ReadCompressed(s, i)
            IN IF ~r.ok THEN Err(s)
               ELSE [s EXCEPT !.pos = r.pos,
                      !.outs = TLCEval([k \in 1..s.nsub |-> IF r.vars[k].set = 0 THEN @[k]
                                                    ELSE [@[k] EXCEPT ![p] = SetAttr(@, r.vars[k])]])]
       ELSE LET r == ReadElement(s, i)
            IN IF ~r.ok THEN Err(s)
               ELSE IF r.var.set = 0 THEN [s EXCEPT !.pos = r.pos]
               ELSE [s EXCEPT !.pos = r.pos, !.outs[s.sub][p] = SetAttr(@, r.var)]
  ELSE LET fa == FindAttr(s.outs[s.sub][p].at, i.c)
       IN Emit(s, IF fa.found THEN Write(i, fa.a) ELSE [ok |-> TRUE, fs |-> Ones(i.bl)])

(* A replication factor or field significance: [s, n]; n: wide or -1 when unset *)
TakeUniform(s, i) ==
  IF s.mode = "dec"
  THEN LET r == ReadUniform(s, i)
       IN IF ~r.ok THEN [s |-> Err(s)]
          ELSE LET s2 == [s EXCEPT !.pos = r.pos]
               IN [s |-> IF s.comp THEN AppendAll(s2, Same(s, r.var)) ELSE Append1(s2, r.var), var |-> r.var]
  ELSE IF ~HasVar(s) THEN [s |-> Err(s)]
  ELSE [s |-> Took(Emit(s, WriteVar(s, i, NextVar(s)))), var |-> NextVar(s)]

-----------------------------------------------------------------------------
(* Bitmaps. The n-th "present" mark belongs to the n-th marked position,     *)
(* positions being the last Len(bits) element variables before the bitmap.   *)

RECURSIVE MapRefs(_, _, _, _)
\* walk back: b marks left to place, p candidate position
MapRefs(vars, bits, b, p) ==
  IF b = 0 THEN [ok |-> TRUE, refs |-> <<>>]
  ELSE IF p = 0 THEN Fail
  ELSE IF F(vars[p].c) # 0 THEN MapRefs(vars, bits, b, p - 1)
  ELSE LET r == MapRefs(vars, bits, b - 1, p - 1)
       IN IF ~r.ok THEN Fail
          ELSE IF bits[b] = 43 THEN [ok |-> TRUE, refs |-> Append(r.refs, p)] ELSE r

\* a bitmap that has been used up is kept for reuse
Install(s, refs) ==
  LET mp == [on |-> TRUE, refs |-> refs, i |-> 0] IN
  IF refs = <<>> THEN [s EXCEPT !.bm.cur = NoMap, !.bm.last = mp, !.bm.pend = 0]
  ELSE [s EXCEPT !.bm.cur = mp, !.bm.pend = 0]
MapActive(s) == s.bm.cur.on
MapNext(s) == s.bm.cur.refs[s.bm.cur.i + 1]
MapAdvance(s) ==
  IF s.bm.cur.i + 1 = Len(s.bm.cur.refs)
  THEN [s EXCEPT !.bm.last = [s.bm.cur EXCEPT !.i = 0], !.bm.cur = NoMap]
  ELSE [s EXCEPT !.bm.cur.i = @ + 1]

DefineMap(s, n) ==
  IF n = 0 THEN Err(s)
  ELSE IF s.mode = "dec"
  THEN LET w == IF s.comp THEN 7 ELSE 1 IN
       IF ~Avail(s, n * w) THEN Err(s)
       ELSE IF s.comp /\ \E k \in 1..n : Small(s.d, s.pos + 7 * (k - 1) + 1, 6) # 0 THEN Err(s)
       ELSE LET bits == [k \in 1..n |-> IF Small(s.d, s.pos + w * (k - 1), 1) = 0 THEN 43 ELSE 45]
                v == TextVar(s.bm.pend, n, bits)
                s2 == [s EXCEPT !.pos = @ + n * w]
                r == MapRefs(RefSubset(s), bits, n, Len(RefSubset(s)))
            IN IF ~r.ok THEN Err(s)
               ELSE Install(IF s.comp THEN AppendAll(s2, Same(s, v)) ELSE Append1(s2, v), r.refs)
  ELSE IF ~HasVar(s) THEN Err(s)
  ELSE LET v == NextVar(s) IN
       IF F(v.c) # 2 \/ v.set = 0 \/ v.bl # 8 * n THEN Err(s)
       ELSE IF s.mode = "val" /\ v.c # s.bm.pend THEN [s EXCEPT !.st = "any"]
       ELSE LET s2 == Took(Emit(s, [ok |-> TRUE, fs |-> [k \in 1..n |-> [n |-> 1, v |-> N(IF v.tx[k] = 43 THEN 0 ELSE 1)]]]))
                r == MapRefs(s.outs[s.sub], v.tx, n, s.vi)
            IN IF ~r.ok THEN Err(s) ELSE IF s2.st # "run" THEN s2 ELSE Install(s2, r.refs)

-----------------------------------------------------------------------------
(* Actions. Each takes the state with the current descriptor on top.         *)

IsElement(s) == AtOp(s) /\ F(Cur(s)) = 0
IsReplication(s) == AtOp(s) /\ F(Cur(s)) = 1
IsOperator(s) == AtOp(s) /\ F(Cur(s)) = 2
IsSequence(s) == AtOp(s) /\ F(Cur(s)) = 3

\* sign and magnitude
RefValue(s, n) == LET mag == Bits(s.d, s.pos + 1, n - 1)
                  IN IF Small(s.d, s.pos, 1) = 1 THEN NNeg(mag) ELSE mag

RECURSIVE FirstRef(_, _, _)
FirstRef(vars, c, k) == IF k > Len(vars) THEN [found |-> FALSE]
                        ELSE IF vars[k].c = c THEN [found |-> TRUE, rf |-> vars[k].rf]
                        ELSE FirstRef(vars, c, k + 1)

SetRef(s, c, rf) == [s EXCEPT !.m.ov = (c :> rf) @@ @]

Element(s0) ==
  LET c == Cur(s0)
      s == SetOps(s0, Tail(Ops(s0)))
  IN IF s.m.b03 # 0
     THEN \* the descriptor names an element whose reference value is redefined
       LET n == s.m.b03 IN
       IF s.mode = "dec"
       THEN IF s.comp \/ ~Avail(s, n) THEN Err(s)
            ELSE [SetRef(s, c, RefValue(s, n)) EXCEPT !.pos = @ + n]
       ELSE LET fr == FirstRef(s.outs[s.sub], c, s.vi + 1)
                has == fr.found \/ Has(s.tab, c)
                rf == IF fr.found THEN fr.rf ELSE Entry(s.tab, c).rf
            IN IF ~has THEN Err(s)
               ELSE IF NLt(AllOnes(n - 1), NAbs(rf)) THEN Err(s)
               ELSE Emit(SetRef(s, c, rf),
                      [ok |-> TRUE, fs |-> <<[n |-> 1, v |-> N(IF NIsNeg(rf) THEN 1 ELSE 0)], [n |-> n - 1, v |-> NAbs(rf)]>>])
     ELSE LET i == Effective(s, c) IN
          IF "bad" \in DOMAIN i THEN Err(s)
          ELSE IF X(c) = 33 /\ MapActive(s) THEN DoAttribute(MapAdvance(s), i, MapNext(s))
          ELSE DoElement(s, i, s.af.n # 0)

Replication(s0) ==
  LET c == Cur(s0)
      rest == Tail(Ops(s0))
      delayed == Y(c) = 0
      explicit == delayed /\ rest # <<>> /\ F(Head(rest)) = 0 /\ X(Head(rest)) = 31
      dcode == IF explicit THEN Head(rest) ELSE B31012
      rest2 == IF explicit THEN Tail(rest) ELSE rest
      n == X(c)
  IN IF Len(rest2) < n THEN Err(s0)
     ELSE LET body == SubSeq(rest2, 1, n)
              s == SetOps(s0, SubSeq(rest2, n + 1, Len(rest2)))
          IN IF s.bm.pend # 0
             THEN \* the bitmap itself; its size is not kept as a variable
               IF n # 1 \/ body[1] # B31031 THEN Err(s)
               ELSE IF ~delayed THEN DefineMap(s, Y(c))
               ELSE IF ~Has(s.tab, dcode) THEN Err(s)
               ELSE LET i == Entry(s.tab, dcode) IN
                    IF s.mode = "dec"
                    THEN LET r == ReadUniform(s, i)
                         IN IF ~r.ok \/ r.var.set = 0 \/ ~Numeric(r.var) THEN Err(s)
                            ELSE DefineMap([s EXCEPT !.pos = r.pos], NInt(r.var.v))
                    ELSE IF ~HasVar(s) \/ ~Numeric(i) THEN Err(s)
                    ELSE LET bl == NextVar(s).bl \div 8
                             w == Write(i, VarN(i, N(bl)))
                         IN IF ~InRange(i, N(bl)) THEN Err(s)
                            ELSE LET s2 == Emit(s, w) IN IF s2.st # "run" THEN s2 ELSE DefineMap(s2, bl)
             ELSE IF ~delayed THEN Push(s, body, Y(c))
             ELSE IF ~Has(s.tab, dcode) THEN Err(s)
             ELSE LET t == TakeUniform(s, Entry(s.tab, dcode))
                  IN IF t.s.st # "run" THEN t.s
                     ELSE IF t.var.set = 0 \/ ~Numeric(t.var) THEN Err(s)
                     ELSE IF t.var.v = Zero THEN t.s
                     ELSE Push(t.s, body, NInt(t.var.v))

Sequence(s0) ==
  LET c == Cur(s0)
      s == SetOps(s0, Tail(Ops(s0)))
  IN IF ~HasD(s.tab, c) THEN Err(s) ELSE Push(s, Expansion(s.tab, c), 1)

Operator(s0) ==
  LET c == Cur(s0)
      y == Y(c)
      s == SetOps(s0, Tail(Ops(s0)))
      rest == Ops(s)
  IN CASE X(c) = 1 -> [s EXCEPT !.m.w = IF y = 0 THEN 0 ELSE y - 128]
       [] X(c) = 2 -> [s EXCEPT !.m.s = IF y = 0 THEN 0 ELSE y - 128]
       [] X(c) = 3 -> IF y = 255 THEN [s EXCEPT !.m.b03 = 0]
                      ELSE IF y = 0 THEN [s EXCEPT !.m.b03 = 0, !.m.ov = <<>>]
                      ELSE IF y > 32 THEN Err(s)
                      ELSE [s EXCEPT !.m.b03 = y]
       [] X(c) = 4 -> IF y = 0 THEN [s EXCEPT !.af.n = 0]
                      ELSE IF s.af.n # 0 \/ y > 32 THEN Err(s)
                      ELSE IF rest = <<>> THEN Err(s)
                      ELSE IF Head(rest) # B31021 \/ ~Has(s.tab, B31021) THEN Err(s)
                      ELSE LET t == TakeUniform(SetOps(s, Tail(rest)), Entry(s.tab, B31021))
                           IN IF t.s.st # "run" THEN t.s
                              ELSE [t.s EXCEPT !.af = [n |-> y, sig |-> IF t.var.set = 0 THEN 63 ELSE NInt(t.var.v)]]
       [] X(c) = 5 -> IF s.mode = "dec"
                      THEN IF s.comp \/ ~Avail(s, 8 * y) THEN Err(s)
                           ELSE Append1([s EXCEPT !.pos = @ + 8 * y],
                                  TextVar(c, y, CutNul(BitBytes(s.d, s.pos, 8 * y), 1)))
                      ELSE IF ~HasVar(s) THEN Err(s)
                      ELSE IF s.mode = "val" /\ NextVar(s).c # c THEN Err(s)
                      ELSE Took(Emit(s, [ok |-> TRUE, fs |-> Padded(NextVar(s).tx, 8 * y)]))
       [] X(c) = 6 -> IF rest = <<>> THEN Err(s)
                      ELSE LET s2 == SetOps(s, Tail(rest))
                               dc == Head(rest)
                               known == Has(s.tab, dc)
                               i == Effective(s, dc)
                           IN IF y = 0 THEN s2
                              ELSE IF known /\ "bad" \in DOMAIN i THEN Err(s2)
                              ELSE IF known /\ i.bl = y THEN DoElement(s2, i, FALSE)
                              ELSE DoElement(s2, [c |-> dc, y |-> "b", sc |-> 0, rf |-> Zero, bl |-> y,
                                                  len |-> (y + 7) \div 8, u |-> "b"], FALSE)
       [] X(c) = 7 -> [s EXCEPT !.m.r = y]
       [] X(c) = 8 -> [s EXCEPT !.m.l = y]
       [] X(c) = 22 -> IF y # 0 THEN Err(s) ELSE [s EXCEPT !.bm.pend = c]
       [] X(c) = 23 -> IF y = 0 THEN [s EXCEPT !.bm.pend = c]
                       ELSE IF y # 255 \/ ~MapActive(s) THEN Err(s)
                       ELSE LET p == MapNext(s)
                                v == RefSubset(s)[p]
                            IN DoAttribute(MapAdvance(s), [c |-> v.c, y |-> v.y, sc |-> v.sc, rf |-> v.rf, bl |-> v.bl,
                                 len |-> IF v.y = "s" THEN v.bl \div 8 ELSE IF v.y = "b" THEN (v.bl + 7) \div 8 ELSE Digits(v.bl),
                                 u |-> "x"], p)
       [] X(c) = 37 -> IF y = 0
                       THEN LET b == IF s.bm.cur.on THEN s.bm.cur ELSE s.bm.last
                            IN IF b.on /\ b.refs # <<>>
                               THEN [s EXCEPT !.bm = [pend |-> 0, last |-> NoMap, cur |-> [b EXCEPT !.i = 0]]]
                               ELSE [s EXCEPT !.bm = [pend |-> 0, last |-> b, cur |-> NoMap]]
                       ELSE IF y = 255 THEN [s EXCEPT !.bm.last = NoMap]
                       ELSE Err(s)
       [] OTHER -> s

\* the current list of descriptors is used up: repeat it or go back to the caller's
IsReturn(s) == Running(s) /\ Ops(s) = <<>>
Return(s) ==
  LET t == Top(s) IN
  IF t.left > 0 THEN [s EXCEPT !.stack[Len(s.stack)] = [t EXCEPT !.ops = t.body, !.left = @ - 1]]
  ELSE [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

Start(s) == [s EXCEPT !.stack = <<[ops |-> s.desc, body |-> s.desc, left |-> 0]>>,
                      !.m = NoOps, !.af = NoField, !.bm = NoMaps, !.vi = 0]

\* all descriptors done for this subset: operators do not outlive it
IsEndSubset(s) == s.st = "run" /\ s.stack = <<>>
EndSubset(s) ==
  IF ~s.comp /\ s.sub < s.nsub
  THEN Start([s EXCEPT !.sub = @ + 1])
  ELSE [s EXCEPT !.st = "ok"]

Machine(mode, d, pos, lim, tab, desc, nsub, comp, undef, outs) ==
  Start([mode |-> mode, st |-> "run", d |-> d, pos |-> pos, lim |-> lim, tab |-> tab, desc |-> desc,
         nsub |-> nsub, comp |-> comp, undef |-> undef, sub |-> 1, stack |-> <<>>,
         m |-> NoOps, af |-> NoField, bm |-> NoMaps, outs |-> outs, vi |-> 0, fields |-> <<>>])
=============================================================================
