------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session: a heap of named triangles and the calls a user makes on      *)
(* them.  Expect(op, a, in, got) is the transition relation in functional  *)
(* form: what one public call must return, and which existing objects it   *)
(* may change.  A call record has                                          *)
(*   op : the API entry point      a : its arguments (labels, not code)    *)
(*   in : the operand triangles (abstract values, receiver first)          *)
(* got is what the implementation returned; it is consulted only where the *)
(* specification is deliberately loose (order of new index rows).          *)
(*                                                                         *)
(* The result is [k, ..., mut, free]:                                      *)
(*   k    "tri" | "num" | "bool" | "err" | "none" | "skip"                 *)
(*   mut  "self" when the receiver itself becomes the returned triangle    *)
(*   free aspects of the returned triangle left unspecified                *)
(***************************************************************************)
EXTENDS Tri

RT(t) == [k |-> "tri", t |-> t, mut |-> "no", free |-> {}]
RTfree(t, f) == [k |-> "tri", t |-> t, mut |-> "no", free |-> f]
RTself(t) == [k |-> "tri", t |-> t, mut |-> "self", free |-> {}]
RNum(x) == [k |-> "num", x |-> x, mut |-> "no", free |-> {}]
RBool(b) == [k |-> "bool", b |-> b, mut |-> "no", free |-> {}]
RErr == [k |-> "err", mut |-> "no", free |-> {}]
RBad(what) == [k |-> what, mut |-> "no", free |-> {}]     \* nothing observable satisfies the specification
RSkip == [k |-> "skip", mut |-> "no", free |-> {}]
InPlace(a, t) == IF a.inplace THEN RTself(t) ELSE RT(t)
\* a reduction of a 1x1x1x1 triangle is a number
RTorNum(t) == IF Shape(t) = <<1, 1, 1, 1>> THEN RNum(t.v[1][1][1][1]) ELSE RT(t)

---------------------------------------------------------------------------
(* Python index expressions: <<"all">>, <<"int", p>>, <<"slice", lo, hi, step>>
   (None = 99999), <<"list", ps>>; the result is the sequence of positions. *)
NONE == 99999
PyIx(n, p) == IF p < 0 THEN n + p ELSE p
Clip(x, lo, hi) == IMax(lo, IMin(hi, x))
PySlice(n, lo, hi, st) ==
  LET s == IF st = NONE THEN 1 ELSE st
      a == IF lo = NONE THEN (IF s > 0 THEN 0 ELSE n - 1) ELSE Clip(PyIx(n, lo), IF s > 0 THEN 0 ELSE -1, IF s > 0 THEN n ELSE n - 1)
      b == IF hi = NONE THEN (IF s > 0 THEN n ELSE -1) ELSE Clip(PyIx(n, hi), IF s > 0 THEN 0 ELSE -1, IF s > 0 THEN n ELSE n - 1)
      cnt == IF s > 0 THEN (IF b <= a THEN 0 ELSE (b - a + s - 1) \div s)
             ELSE (IF b >= a THEN 0 ELSE (a - b + (-s) - 1) \div (-s))
  IN [k \in 1..cnt |-> a + (k - 1) * s + 1]
Resolve(n, e) == CASE e[1] = "all" -> Iota(n)
                   [] e[1] = "int" -> <<PyIx(n, e[2]) + 1>>
                   [] e[1] = "slice" -> PySlice(n, e[2], e[3], e[4])
                   [] OTHER -> [k \in 1..Len(e[2]) |-> PyIx(n, e[2][k]) + 1]
\* label expressions: <<"all">>, <<"one", x>>, <<"range", x, y>> (inclusive, NONE = open), <<"list", xs>>
LabPos(s, e) == CASE e[1] = "all" -> Iota(Len(s))
                  [] e[1] = "one" -> <<Pos(s, e[2])>>
                  [] e[1] = "list" -> [k \in 1..Len(e[2]) |-> Pos(s, e[2][k])]
                  [] OTHER -> Where(Len(s), LAMBDA k : (e[2] = NONE \/ s[k] >= e[2]) /\ (e[3] = NONE \/ s[k] <= e[3]))
\* column ranges are by position of their end labels
ColPos(s, e) == IF e[1] = "range" THEN SubSeq(Iota(Len(s)), Pos(s, e[2]), Pos(s, e[3])) ELSE LabPos(s, e)
IdxPos(t, e) == CASE e[1] = "all" -> AllI(t)
                  [] e[1] = "first" -> Where(NI(t), LAMBDA i : t.keys[i][1] = e[2])   \* every row with this first level
                  [] e[1] = "one" -> <<Pos(t.keys, e[2])>>
                  [] OTHER -> [k \in 1..Len(e[2]) |-> Pos(t.keys, e[2][k])]
NonEmpty(I, C, O, D) == Len(I) > 0 /\ Len(C) > 0 /\ Len(O) > 0 /\ Len(D) > 0
Contig(s) == Len(s) < 3 \/ \A k \in 2..(Len(s)-1) : s[k+1] - s[k] = s[2] - s[1]

---------------------------------------------------------------------------
UnOp(t, op) == CASE op = "neg" -> [t EXCEPT !.v = MapV(t, RNeg)]
                 [] op = "abs" -> [t EXCEPT !.v = MapV(t, RAbs)]
                 [] OTHER -> t
KeysSortedSet(s, t, got) ==        \* union of keys in the order the implementation chose
  IF got.k = "tri" THEN got.t.keys ELSE <<>>
UnionKeysOk(s, t, keys) == Distinct(keys) /\ Range(keys) = Range(s.keys) \cup Range(t.keys)

\* a vector (one origin or one age) with labels after the valuation date: whether those
\* cells count as known is left open by the library
Hidden1D(t) == ~t.val /\ IMin(NO(t), ND(t)) = 1 /\ \E o \in 1..NO(t), d \in 1..ND(t) : Valn(t, o, d) > t.vd
\* the months spanned form a gapless calendar: origins one grain apart, valuations one step apart
Gapless(S, st) == \A m \in S : m = MaxS(S) \/ (m + st) \in S
RegOrg(t) == \A k \in 1..(NO(t)-1) : t.org[k+1] = t.org[k] + GLen(t.og)
RegVal(t) == LET S == {Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)} IN
             Gapless({m \in S : m < ULTV - 11}, GLen(t.dg))
RegDev(t) == LET S == Range(t.dev) \ {ULTA} IN
             Gapless({m \in S : m < ULTV - 11}, GLen(t.dg))
\* nothing sits after the valuation date (prod, for one, writes 1 there)
Clean(t) == IMin(NO(t), ND(t)) = 1 \/ MaskOk(t)
AnyVis(t) == \E o \in 1..NO(t), d \in 1..ND(t) : Vis(t, o, d)
Regular(t) == AnyVis(t) /\ ~Hidden1D(t) /\ RegOrg(t) /\ RegVal(t) /\ RegDev(t) /\ Clean(t)
\* operands whose axes differ are aligned by label; only gapless axes can be
NeedsAlign(s, t) == \/ (NO(s) > 1 /\ NO(t) > 1 /\ s.org # t.org)
                    \/ (ND(s) > 1 /\ ND(t) > 1 /\ s.dev # t.dev)
Alignable(s, t) == ~NeedsAlign(s, t) \/ (RegOrg(s) /\ RegOrg(t) /\ RegDev(s) /\ RegDev(t))
IntLabel(t) == "0" \in Range(t.cols)       \* the column of an aggregation over columns has an integer label
\* arithmetic with a coarser index that names unknown groups is left open; its result may carry a "nan" label
NanKey(t) == \E i \in 1..NI(t) : "nan" \in Range(t.keys[i])
\* half-years that do not start with the first origin: known finding, see known-findings.json
HalfYearOff(t, a) == LET cm == IF a.trailing THEN LastClose(t) ELSE a.cm IN
                     a.og = "S" /\ t.og # "S" /\ PStart(t.org[1], 6, cm) # t.org[1]
\* a valuation inside a development period, with the first coarse origin starting before the first
\* valuation: known finding (the earlier ages are padded at period ends instead)
OffPhase(t, a) == LET cm == IF a.trailing THEN LastClose(t) ELSE a.cm IN
                  /\ a.og # t.og /\ (Valn(t, 1, 1) - t.org[1] + 1) % GLen(t.dg) # 0
                  /\ t.dg = "S" \/ PStart(t.org[1], GLen(a.og), cm) + GLen(t.dg) <= MinS({Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)})
\* a tie up to float noise may round either way
NearTie(x, n) == LET y == RMul(x, RPow("10", n)) IN
                 RLt("499999/1000000", RAbs(RSub(y, RRound(y, 0))))
HintDev(got) == IF got.k = "tri" THEN got.t.dev ELSE <<>>
Expect(op, a, in, got) ==
  LET t == in[1] IN
  CASE \E k \in 1..Len(in) : NanKey(in[k]) -> RSkip
    [] op = "copy" -> RT(t)
    [] op = "set_backend" -> (IF a.inplace THEN RTself(t) ELSE RT(t))
    \* ---- accumulation and relabelling
    \* products of factors beyond double precision are not specified
    [] op \in {"incr_to_cum", "cum_to_incr"} /\ t.pat /\ \E i \in 1..NI(t), c \in 1..NC(t), o \in 1..NO(t), d \in 1..ND(t) :
         RIsNan(t.v[i][c][o][d]) \/ RLt("1e50", t.v[i][c][o][d]) -> RSkip
    [] op = "incr_to_cum" -> (IF a.inplace THEN RTself(IncrToCum(t)) ELSE RT(IncrToCum(t)))
    [] op = "cum_to_incr" -> (IF a.inplace THEN RTself(CumToIncr(t)) ELSE RT(CumToIncr(t)))
    [] op = "dev_to_val" -> (IF ~Regular(t) THEN RSkip ELSE InPlace(a, DevToVal(t)))
    [] op = "val_to_dev" -> (IF t.val /\ ~(RegOrg(t) /\ RegVal(t)) THEN RSkip ELSE InPlace(a, ValToDev(t, HintDev(got))))
    [] op = "grain" -> (IF ~GrainValid(t, a.og, a.dg) THEN RErr ELSE IF ~Regular(t) \/ HalfYearOff(t, a) \/ OffPhase(t, a) THEN RSkip
                        ELSE InPlace(a, Grain(t, a.og, a.dg, IF a.trailing THEN LastClose(t) ELSE a.cm, HintDev(got))))
    \* ---- selection
    [] op = "iloc" ->
        LET I == Resolve(NI(t), a.i) C == Resolve(NC(t), a.c) O == Resolve(NO(t), a.o) D == Resolve(ND(t), a.d) IN
        IF ~NonEmpty(I, C, O, D) THEN RSkip
        ELSE IF ~Contig(O) \/ ~Contig(D) THEN RErr
        ELSE RTfree(Slice(t, I, C, O, D), IF t.pat THEN {"valuation-date"} ELSE {})    \* a pattern has no valuations
    [] op = "loc" ->
        LET I == IdxPos(t, a.i) C == ColPos(t.cols, a.c) O == LabPos(t.org, a.o) D == LabPos(t.dev, a.d) IN
        IF ~NonEmpty(I, C, O, D) THEN RSkip
        ELSE IF ~Contig(O) \/ ~Contig(D) THEN RErr ELSE RT(SliceLoc(t, I, C, O, D))
    [] op = "col" -> (IF \E k \in 1..Len(a.cols) : Pos(t.cols, a.cols[k]) = 0 THEN RErr
                      ELSE RT(Slice(t, AllI(t), LabPos(t.cols, <<"list", a.cols>>), AllO(t), AllD(t))))
    [] op = "drop" -> RT(Slice(t, AllI(t), Where(NC(t), LAMBDA c : t.cols[c] \notin Range(a.cols)), AllO(t), AllD(t)))
    [] op = "mask_origin" -> (LET O == Where(NO(t), LAMBDA o : RelOp(a.rel, t.org[o], a.m)) IN
                              IF O = <<>> THEN RSkip ELSE RT(SelOrigin(t, O)))
    [] op = "mask_dev" -> (LET D == Where(ND(t), LAMBDA d : RelOp(a.rel, t.dev[d], a.m)) IN
                           IF D = <<>> THEN RSkip ELSE RT(SelDev(t, D)))
    [] op = "mask_val" -> (IF ND(t) = 1 \/ ~AnyValn(t, a.rel, a.m) THEN RSkip ELSE RT(SelValn(t, a.rel, a.m)))
    [] op = "mask_index" -> (LET p == Pos(t.klab, a.lab)
                                 I == Where(NI(t), LAMBDA i : (t.keys[i][p] = a.x) <=> (a.rel = "==")) IN
                             IF I = <<>> THEN RSkip ELSE RT(Slice(t, I, AllC(t), AllO(t), AllD(t))))
    [] op = "head" -> RT(Slice(t, Resolve(NI(t), <<"slice", NONE, a.n, NONE>>), AllC(t), AllO(t), AllD(t)))
    [] op = "tail" -> RT(Slice(t, Resolve(NI(t), <<"slice", 0 - a.n, NONE, NONE>>), AllC(t), AllO(t), AllD(t)))
    [] op = "iat" -> RNum(t.v[PyIx(NI(t), a.i)+1][PyIx(NC(t), a.c)+1][PyIx(NO(t), a.o)+1][PyIx(ND(t), a.d)+1])
    [] op = "at" -> RNum(t.v[Pos(t.keys, a.i)][Pos(t.cols, a.c)][Pos(t.org, a.o)][Pos(t.dev, a.d)])
    [] op = "iat_set" ->
        LET i0 == PyIx(NI(t), a.i)+1 c0 == PyIx(NC(t), a.c)+1 o0 == PyIx(NO(t), a.o)+1 d0 == PyIx(ND(t), a.d)+1 IN
        RTself([t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d :
                    IF <<i, c, o, d>> = <<i0, c0, o0, d0>> THEN RNorm(a.x) ELSE t.v[i][c][o][d])])
    [] op = "at_set" ->
        LET i0 == Pos(t.keys, a.i) c0 == Pos(t.cols, a.c) o0 == Pos(t.org, a.o) d0 == Pos(t.dev, a.d) IN
        RTself([t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d :
                    IF <<i, c, o, d>> = <<i0, c0, o0, d0>> THEN RNorm(a.x) ELSE t.v[i][c][o][d])])
    [] op = "latest_diagonal" -> (IF ~AnyValn(t, "==", t.vd) THEN RSkip ELSE IF Shape(LatestDiagonal(t)) = <<1, 1, 1, 1>> THEN RNum(LatestDiagonal(t).v[1][1][1][1])
                                  ELSE RT(LatestDiagonal(t)))
    [] op = "dropna" -> (IF DropNaOk(t) THEN RT(DropNa(t)) ELSE RSkip)
    \* ---- aggregation
    [] op = "agg" -> RTorNum(Agg(t, a.fn, a.ax))
    [] op = "agg_default" -> RTorNum(Agg(t, a.fn, DefaultAxis(t)))
    [] op = "cumsum" -> RTorNum(CumAlong(t, a.ax))
    [] op = "groupby" ->
        (IF got.k # "tri" \/ ~GroupOk(t, a.lab, got.t.keys) THEN RBad("groups")
         ELSE RT(GroupBy(t, a.lab, got.t.keys, a.fn)))
    \* ---- arithmetic
    [] op = "binop" ->
        LET s == in[1] u == in[2] IN
        IF ~GrainOk(s, u) THEN RErr
        ELSE IF ~Alignable(s, u) THEN RSkip
        ELSE LET ks == KeysSortedSet(s, u, got) IN
             IF Ambiguous(s, u) THEN RErr
             ELSE IF Multi(s, u) /\ Len(s.klab) = Len(u.klab) /\ s.klab # u.klab THEN RSkip    \* same levels in another order
             ELSE IF DiffLevels(s, u) /\ Unmatched(s, u) THEN RSkip
             ELSE IF DiffLevels(s, u) /\ ~(Distinct(ks) /\ Range(ks) = Range(Finer(s, u).keys)) THEN RBad("index-order")
             ELSE IF Multi(s, u) /\ ~DiffLevels(s, u) /\ s.keys # u.keys /\ ~UnionKeysOk(s, u, ks) THEN RBad("index-order")
             ELSE RT(Arith(a.o, s, u, ks))
    [] op = "numop" -> RT(ArithNum(a.o, t, a.x))
    [] op = "unop" -> RT(UnOp(t, a.o))
    [] op = "round" -> RT([t EXCEPT !.v = MapV(t, LAMBDA x : IF NearTie(x, a.n) THEN "any" ELSE RRound(x, a.n))])
    [] op = "ltnum" -> RT([t EXCEPT !.v = MapV(t, LAMBDA x : IF RLt(x, a.x) THEN "1" ELSE "0")])
    [] op = "lenum" -> RT([t EXCEPT !.v = MapV(t, LAMBDA x : IF RLe(x, a.x) THEN "1" ELSE "0")])
    [] op = "pow" -> RT([t EXCEPT !.v = MapV(t, LAMBDA x : RPow(x, a.n))])
    [] op = "eq" -> (IF in[1].v = in[2].v THEN RBool(TRUE) ELSE IF RMatch(in[1].v, in[2].v) THEN RSkip ELSE RBool(FALSE))
    [] op = "minimum" -> RT([t EXCEPT !.v = MapV(t, LAMBDA x : IF RIsZero(x) THEN "any" ELSE RMin2(x, a.x))])
    [] op = "maximum" -> RT([t EXCEPT !.v = MapV(t, LAMBDA x : IF RIsZero(x) THEN "any" ELSE RMax2(x, a.x))])
    \* ---- structure
    [] op = "concat" -> (IF \E k \in 2..Len(in) : IntLabel(in[1]) # IntLabel(in[k]) THEN RSkip
                         ELSE IF ~ConcatAllOk(in, a.ax) THEN RErr ELSE RT(ConcatN(in, a.ax)))
    [] op = "append" -> (IF IntLabel(in[1]) # IntLabel(in[2]) THEN RSkip ELSE IF ~ConcatOk(in[1], in[2], 0) THEN RErr ELSE RT(Concat2(in[1], in[2], 0)))
    [] op = "rename" -> RTself(Rename(t, a.ax, a.lab))
    [] op = "setcol" -> RTself(SetCol(t, a.name, in[2]))
    [] op = "sort_index" -> (IF got.k # "tri" \/ ~(Distinct(got.t.keys) /\ Range(got.t.keys) = Range(t.keys)) THEN RBad("not-a-permutation")
                             ELSE RT(Slice(t, [k \in 1..NI(t) |-> Pos(t.keys, got.t.keys[k])], AllC(t), AllO(t), AllD(t))))
    [] op = "shift" -> IF t.val /\ a.ax = 3 THEN RSkip ELSE RTfree(Shift(t, a.n, a.ax), {"valuation-date"})
    [] op = "link_ratio" -> (IF ND(t) < 2 \/ t.val THEN RSkip ELSE RT(LinkRatio(t)))
    [] OTHER -> RSkip

---------------------------------------------------------------------------
(* Comparison of an observed triangle with the expected one: the set of    *)
(* aspects on which they disagree.                                         *)
DiffTri(e, g) ==
  {x \in {"index", "index-names", "columns", "origin", "development", "axis-kind", "cumulative",
          "pattern", "valuation-date", "grain", "values"} :
     CASE x = "index" -> e.keys # g.keys
       [] x = "index-names" -> e.klab # g.klab
       [] x = "columns" -> e.cols # g.cols
       [] x = "origin" -> e.org # g.org /\ ~(e.pat /\ Len(e.org) = 1 /\ Len(g.org) = 1)
       [] x = "development" -> e.dev # g.dev
       [] x = "axis-kind" -> e.val # g.val
       [] x = "cumulative" -> e.cum # g.cum
       [] x = "pattern" -> e.pat # g.pat
       [] x = "valuation-date" -> e.vd # g.vd
       [] x = "grain" -> e.og # g.og \/ e.dg # g.dg
       [] OTHER -> ~RMatch(e.v, g.v)}
\* verdict of one call: the set of clauses it violates
ResDiff(e, g) ==
  IF e.k = "skip" THEN {}
  ELSE IF e.k # g.k THEN {"result-kind:" \o e.k \o "/" \o g.k}
  ELSE CASE e.k = "tri" -> DiffTri(e.t, g.t) \ e.free
         [] e.k = "num" -> (IF RMatch(e.x, g.x) THEN {} ELSE {"number"})
         [] e.k = "bool" -> (IF e.b = g.b THEN {} ELSE {"boolean"})
         [] OTHER -> {}
=============================================================================
