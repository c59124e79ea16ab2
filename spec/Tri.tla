-------------------------------- MODULE Tri --------------------------------
(***************************************************************************)
(* The abstract loss triangle and the meaning of every structural          *)
(* operation of the public API.                                            *)
(*                                                                         *)
(* A triangle is a record                                                  *)
(*   keys : Seq(Seq(STRING))   index labels, one tuple per index row       *)
(*   klab : Seq(STRING)        names of the index levels                   *)
(*   cols : Seq(STRING)        column labels                               *)
(*   org  : Seq(Int)           origin periods: absolute month of the start *)
(*   dev  : Seq(Int)           ages in months (9999 = ultimate), or, when  *)
(*                             val = TRUE, valuation months                *)
(*   val  : BOOLEAN            development axis holds valuations           *)
(*   cum  : "T" | "F" | "N"    cumulative / incremental / not set          *)
(*   pat  : BOOLEAN            development pattern (factors) not amounts   *)
(*   vd   : Int                valuation month of the triangle             *)
(*   og, dg : "Y"|"S"|"Q"|"M"  origin and development grain                *)
(*   v    : [key][col][origin][dev] -> rational                            *)
(* Absolute month m stands for year m \div 12, month m % 12 + 1.           *)
(* The library identifies a missing cell with a zero one; so does v: "0".  *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

ULTV == 27143                       \* 2261-12, the library's ultimate valuation
ULTA == 9999                        \* the age label of the ultimate
GLen(g) == CASE g = "Y" -> 12 [] g = "S" -> 6 [] g = "Q" -> 3 [] OTHER -> 1

---------------------------------------------------------------------------
(* Sequences and sets *)
Range(s) == {s[k] : k \in 1..Len(s)}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
IMin(a, b) == IF a <= b THEN a ELSE b
IMax(a, b) == IF a >= b THEN a ELSE b
Pos(s, x) == LET S == {k \in 1..Len(s) : s[k] = x} IN IF S = {} THEN 0 ELSE MinS(S)
Pick(s, I) == [k \in 1..Len(I) |-> s[I[k]]]                \* reorder / select by positions
RECURSIVE SortedInts(_)
SortedInts(S) == IF S = {} THEN <<>> ELSE LET m == MinS(S) IN <<m>> \o SortedInts(S \ {m})
Iota(n) == [k \in 1..n |-> k]
Where(n, P(_)) == SortedInts({k \in 1..n : P(k)})
Distinct(s) == Cardinality(Range(s)) = Len(s)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
RECURSIVE Uniq(_)                                           \* first occurrences, in order
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Uniq(SubSeq(s, 1, Len(s)-1)) IN
                IF s[Len(s)] \in Range(r) THEN r ELSE Append(r, s[Len(s)])

---------------------------------------------------------------------------
(* Shape and calendar of a triangle *)
NI(t) == Len(t.keys)
NC(t) == Len(t.cols)
NO(t) == Len(t.org)
ND(t) == Len(t.dev)
Shape(t) == <<NI(t), NC(t), NO(t), ND(t)>>
Build(i, c, o, d, F(_,_,_,_)) ==
  TLCEval([a \in 1..i |-> [b \in 1..c |-> [x \in 1..o |-> [y \in 1..d |-> F(a, b, x, y)]]]])
BuildAs(t, F(_,_,_,_)) == Build(NI(t), NC(t), NO(t), ND(t), F)
MapV(t, F(_)) == BuildAs(t, LAMBDA i, c, o, d : F(t.v[i][c][o][d]))

Valn(t, o, d) == IF t.val THEN t.dev[d]
                 ELSE IF t.dev[d] = ULTA THEN ULTV
                 ELSE t.org[o] + t.dev[d] - 1
MaxVal(t) == MaxS({Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)})
\* A cell is visible unless it lies after the valuation date; one-dimensional
\* triangles (a vector over origins or over ages) have no hidden cells.
Vis(t, o, d) == IMin(NO(t), ND(t)) = 1 \/ Valn(t, o, d) <= t.vd
IsUlt(t) == \E o \in 1..NO(t), d \in 1..ND(t) : Valn(t, o, d) >= ULTV - 11
IsFull(t) == \A o \in 1..NO(t), d \in 1..ND(t) : Vis(t, o, d)
Mask(t) == [t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d :
                                   IF Vis(t, o, d) THEN t.v[i][c][o][d] ELSE "0")]
MaskOk(t) == \A i \in 1..NI(t), c \in 1..NC(t), o \in 1..NO(t), d \in 1..ND(t) :
               Vis(t, o, d) \/ RIsZero(t.v[i][c][o][d])

\* equality of abstract triangles (values under float tolerance)
Same(s, t) == /\ s.keys = t.keys /\ s.klab = t.klab /\ s.cols = t.cols /\ s.org = t.org
              /\ s.dev = t.dev /\ s.val = t.val /\ s.cum = t.cum /\ s.pat = t.pat
              /\ s.vd = t.vd /\ s.og = t.og /\ s.dg = t.dg /\ RMatch(s.v, t.v)
SameCells(s, t) == /\ s.keys = t.keys /\ s.cols = t.cols /\ s.org = t.org
                   /\ s.dev = t.dev /\ s.val = t.val /\ RMatch(s.v, t.v)

---------------------------------------------------------------------------
(* Cumulative <-> incremental.  Amount triangles accumulate along the      *)
(* development axis; pattern triangles (age-to-age factors) accumulate     *)
(* multiplicatively from the right into age-to-ultimate factors.           *)
One1(x) == IF RIsZero(x) THEN "1" ELSE x
IncrToCum(t) ==
  IF t.cum = "T" THEN t
  ELSE IF t.pat THEN
    Mask([t EXCEPT !.cum = "T", !.v = BuildAs(t, LAMBDA i, c, o, d :
            RTrim(RProd([k \in 1..(ND(t)-d+1) |-> One1(t.v[i][c][o][d+k-1])])))])
  ELSE
    Mask([t EXCEPT !.cum = "T", !.v = BuildAs(t, LAMBDA i, c, o, d :
            RSum([k \in 1..d |-> t.v[i][c][o][k]]))])
CumToIncr(t) ==
  IF t.cum = "F" THEN t
  ELSE IF t.pat THEN
    Mask([t EXCEPT !.cum = "F", !.v = BuildAs(t, LAMBDA i, c, o, d :
            IF d = ND(t) THEN One1(t.v[i][c][o][d])
            ELSE RDiv(One1(t.v[i][c][o][d]), One1(t.v[i][c][o][d+1])))])
  ELSE
    Mask([t EXCEPT !.cum = "F", !.v = BuildAs(t, LAMBDA i, c, o, d :
            IF d = 1 THEN t.v[i][c][o][d] ELSE RSub(t.v[i][c][o][d], t.v[i][c][o][d-1]))])

---------------------------------------------------------------------------
(* Development <-> valuation relabelling: a cell is identified by its      *)
(* origin and valuation month, whatever the axis.                          *)
NonUlt(t) == Where(ND(t), LAMBDA d : t.dev[d] # ULTA)
\* position of valuation m in the development axis for origin o (0 if none)
AtVal(t, o, m) == LET S == {d \in 1..ND(t) : Valn(t, o, d) = m} IN IF S = {} THEN 0 ELSE MinS(S)
\* latest position whose valuation does not exceed m (0 if none)
AsOf(t, o, m) == LET S == {d \in 1..ND(t) : Valn(t, o, d) <= m} IN
                 IF S = {} THEN 0 ELSE CHOOSE d \in S : \A e \in S : Valn(t, o, e) <= Valn(t, o, d)
CellAt(t, i, c, o, d) == IF d = 0 THEN "0" ELSE t.v[i][c][o][d]
ValAxis(t) == SortedInts({Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)}
                         \cap {m \in {Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)} : m <= t.vd \/ IsFull(t)})
DevToVal(t) ==
  IF t.val THEN t
  ELSE LET ax == ValAxis(t)
           carry == IsFull(t) /\ t.cum = "T"          \* a completed square carries its last amount forward
       IN [t EXCEPT !.val = TRUE, !.dev = ax,
             !.v = Build(NI(t), NC(t), NO(t), Len(ax), LAMBDA i, c, o, k :
                     CellAt(t, i, c, o, IF carry THEN AsOf(t, o, ax[k]) ELSE AtVal(t, o, ax[k])))]
\* Ages the relabelled triangle covers.  Regularly they run from the age of the first origin
\* at the first valuation to its age at the last one.  A valuation axis that starts after
\* several origins have started has younger origins with smaller ages: the axis then starts
\* at any age between the smallest one present and the one of the youngest origin that had
\* started; hint is the observed axis, accepted when it satisfies exactly that.
FinVals(t) == Where(ND(t), LAMBDA d : t.dev[d] < ULTV - 11)            \* the ultimate column keeps its label
AgeAt(t, o, d) == t.dev[d] - t.org[o] + 1
PresentAges(t) ==
  LET fin == FinVals(t) IN
  UNION {{AgeAt(t, o, d) : d \in {e \in Range(fin) : \E i \in 1..NI(t), c \in 1..NC(t) : ~RIsZero(t.v[i][c][o][e])}} : o \in 1..NO(t)}
Steps(lo, hi, st) == [k \in 1..((hi - lo) \div st + 1) |-> lo + (k-1)*st]
DevAxis(t, hint) ==
  LET st   == GLen(t.dg)
      fin  == FinVals(t)
      ult  == Len(fin) < ND(t)
      one  == Len(fin) = 1 /\ ~ult
      lag0 == AgeAt(t, 1, fin[1])
      last == AgeAt(t, 1, fin[Len(fin)])
      pa   == PresentAges(t)
      early == pa # {} /\ MinS(pa) < lag0
      h    == IF ult THEN SubSeq(hint, 1, Len(hint) - 1) ELSE hint
      lo   == IF early THEN MinS({MinS(pa)} \cup {AgeAt(t, o, fin[1]) : o \in {p \in 1..NO(t) : t.org[p] <= t.dev[fin[1]]}}) ELSE lag0
      ok   == /\ Len(h) >= 1 /\ h = Steps(h[1], h[Len(h)], st)
              /\ h[1] >= lo /\ h[1] <= MinS(pa) /\ h[Len(h)] >= MaxS(pa) /\ h[Len(h)] <= last
              /\ (lag0 - h[1]) % st = 0
      reg  == IF one THEN Steps(AgeAt(t, NO(t), fin[1]), last, st)
              ELSE IF early THEN (IF ok THEN h ELSE Steps(lo, last, st))
              ELSE Steps(lag0, last, st)
  IN reg \o (IF ult THEN <<ULTA>> ELSE <<>>)
ValToDev(t, hint) ==
  IF ~t.val THEN t
  ELSE LET ax == DevAxis(t, hint)
       IN [t EXCEPT !.val = FALSE, !.dev = ax,
             !.v = Build(NI(t), NC(t), NO(t), Len(ax), LAMBDA i, c, o, k :
                     IF ax[k] = ULTA THEN t.v[i][c][o][ND(t)]
                     ELSE CellAt(t, i, c, o, Pos(t.dev, t.org[o] + ax[k] - 1)))]

---------------------------------------------------------------------------
(* Selection.  I, C, O, D are sequences of positions.                      *)
Sel(t, I, C, O, D) ==
  [t EXCEPT !.keys = Pick(t.keys, I), !.cols = Pick(t.cols, C),
            !.org = Pick(t.org, O), !.dev = Pick(t.dev, D),
            !.v = Build(Len(I), Len(C), Len(O), Len(D), LAMBDA i, c, o, d : t.v[I[i]][C[c]][O[o]][D[d]])]
AllI(t) == Iota(NI(t))
AllC(t) == Iota(NC(t))
AllO(t) == Iota(NO(t))
AllD(t) == Iota(ND(t))
\* positional / label slicing: the valuation date never exceeds what is left
Slice(t, I, C, O, D) == LET s == Sel(t, I, C, O, D) IN [s EXCEPT !.vd = IMin(t.vd, MaxVal(s))]
\* loc drops the first index level when it has become constant
SliceLoc(t, I, C, O, D) ==
  LET s == Slice(t, I, C, O, D) IN
  IF NI(s) > 1 /\ \A k \in 1..NI(s) : s.keys[k][1] = s.keys[1][1]
  THEN [s EXCEPT !.keys = [k \in 1..NI(s) |-> Tail(s.keys[k])], !.klab = Tail(s.klab)]
  ELSE s
\* boolean masks over origins / ages keep the valuation date
SelOrigin(t, O) == Sel(t, AllI(t), AllC(t), O, AllD(t))
SelDev(t, D) == Sel(t, AllI(t), AllC(t), AllO(t), D)
\* a mask over cells by valuation month: nothing outside the mask survives, and
\* origins / ages without a selected cell disappear
RelOp(op, a, b) == CASE op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b
                     [] op = ">=" -> a >= b [] op = "==" -> a = b [] OTHER -> a # b
SelValn(t, op, m) ==
  LET in(o, d) == RelOp(op, Valn(t, o, d), m)
      O == Where(NO(t), LAMBDA o : \E d \in 1..ND(t) : in(o, d))
      D == Where(ND(t), LAMBDA d : \E o \in 1..NO(t) : in(o, d))
      vd == IMin(t.vd, MaxS({Valn(t, o, d) : o \in Range(O), d \in Range(D)} \cap
                            {x \in {Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)} : RelOp(op, x, m)}))
      u == [t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d : IF in(o, d) THEN t.v[i][c][o][d] ELSE "0"), !.vd = vd]
  IN Slice(u, AllI(t), AllC(t), O, D)
AnyValn(t, op, m) == \E o \in 1..NO(t), d \in 1..ND(t) : RelOp(op, Valn(t, o, d), m)

LatestDiagonal(t) ==
  LET s == SelValn(t, "==", t.vd)
  IN [s EXCEPT !.dev = IF ND(s) > 1 THEN <<s.vd>> ELSE s.dev,
               !.val = IF ND(s) > 1 THEN TRUE ELSE s.val,
               !.v = Build(NI(s), NC(s), NO(s), 1, LAMBDA i, c, o, d : RSum(s.v[i][c][o]))]

---------------------------------------------------------------------------
(* Aggregation along an axis (0 index, 1 columns, 2 origin, 3 development) *)
RECURSIVE RMaxSeq(_), RMinSeq(_), RSortSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax2(s[1], RMaxSeq(Tail(s)))
RMinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMin2(s[1], RMinSeq(Tail(s)))
RInsert(s, x) == LET n == Cardinality({k \in 1..Len(s) : RLe(s[k], x)}) IN
                 SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n+1, Len(s))
RSortSeq(s) == IF s = <<>> THEN <<>> ELSE RInsert(RSortSeq(Tail(s)), s[1])
Present(s) == SelectSeq(s, LAMBDA x : ~RIsZero(x))
RMean(s) == RDiv(RSum(s), Len(s))
RMedian(s) == LET q == RSortSeq(s) IN LET n == Len(q) IN
              IF n % 2 = 1 THEN q[(n+1) \div 2] ELSE RDiv(RAdd(q[n \div 2], q[n \div 2 + 1]), 2)
RVar(s) == LET m == RMean(s) IN RMean([k \in 1..Len(s) |-> RPow(RSub(s[k], m), 2)])
\* aggregate of the non-missing members of s ("0" when there are none)
AggSeq(fn, s) ==
  LET p == Present(s) IN
  IF fn = "prod" THEN RProd(p)
  ELSE IF p = <<>> THEN "0"
  ELSE CASE fn = "sum" -> RSum(p) [] fn = "mean" -> RMean(p) [] fn = "max" -> RMaxSeq(p)
         [] fn = "min" -> RMinSeq(p) [] fn = "median" -> RMedian(p) [] fn = "var" -> RVar(p)
         [] fn = "std" -> RSqrt(RVar(p)) [] OTHER -> "nan"
Along(t, ax, i, c, o, d) ==          \* the cells that share all coordinates but axis ax
  CASE ax = 0 -> [k \in 1..NI(t) |-> t.v[k][c][o][d]]
    [] ax = 1 -> [k \in 1..NC(t) |-> t.v[i][k][o][d]]
    [] ax = 2 -> [k \in 1..NO(t) |-> t.v[i][c][k][d]]
    [] OTHER  -> t.v[i][c][o]
Agg(t, fn, ax) ==
  LET w == [t EXCEPT
       !.keys = IF ax = 0 /\ NI(t) > 1 THEN <<[k \in 1..Len(t.klab) |-> "(All)"]>> ELSE t.keys,
       !.cols = IF ax = 1 /\ NC(t) > 1 THEN <<"0">> ELSE t.cols,
       !.org  = IF ax = 2 /\ NO(t) > 1 THEN <<t.org[1]>> ELSE t.org,
       !.dev  = IF ax = 3 /\ ND(t) > 1 THEN <<t.vd>> ELSE t.dev,
       !.val  = IF ax = 3 /\ ND(t) > 1 THEN TRUE ELSE t.val]
  IN [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d : AggSeq(fn, Along(t, ax, i, c, o, d)))]
DefaultAxis(t) == IF Shape(t) = <<1, 1, 1, 1>> THEN 0
                  ELSE (MinS({k \in 1..4 : Shape(t)[k] # 1})) - 1
CumAlong(t, ax) ==                    \* cumsum
  [t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d :
     LET n == CASE ax = 0 -> i [] ax = 1 -> c [] ax = 2 -> o [] OTHER -> d
     IN RSum(SubSeq(Along(t, ax, i, c, o, d), 1, n)))]

\* Group index rows by labels; g is the sequence of groups, each a record with
\* label (tuple of strings) and rows (positions)
GroupI(t, lab, gs, fn) ==
  [t EXCEPT !.klab = lab, !.keys = [k \in 1..Len(gs) |-> gs[k].label],
     !.v = Build(Len(gs), NC(t), NO(t), ND(t), LAMBDA i, c, o, d :
             AggSeq(fn, [k \in 1..Len(gs[i].rows) |-> t.v[gs[i].rows[k]][c][o][d]]))]
\* the partition of the index rows by the levels named in lab
LevelPos(t, lab) == [k \in 1..Len(lab) |-> Pos(t.klab, lab[k])]
RowLabel(t, lp, i) == Pick(t.keys[i], lp)
\* order is the (sorted) sequence of group labels, supplied by the observer and checked here
GroupOk(t, lab, order) ==
  LET lp == LevelPos(t, lab) IN
  /\ Distinct(order)
  /\ Range(order) = {RowLabel(t, lp, i) : i \in 1..NI(t)}
GroupBy(t, lab, order, fn) ==
  LET lp == LevelPos(t, lab) IN
  GroupI(t, lab, [k \in 1..Len(order) |->
     [label |-> order[k], rows |-> Where(NI(t), LAMBDA i : RowLabel(t, lp, i) = order[k])]], fn)

---------------------------------------------------------------------------
(* Structure: append, concat, relabel, sort *)
ConcatOk(s, t, ax) ==
  /\ (ax = 0 \/ s.keys = t.keys) /\ Len(s.klab) = Len(t.klab)
  /\ (ax = 2 \/ s.org = t.org)
  /\ (ax = 3 \/ (s.dev = t.dev /\ s.val = t.val))
  /\ CASE ax = 0 -> Range(s.keys) \cap Range(t.keys) = {}
       [] ax = 1 -> Range(s.cols) \cap Range(t.cols) = {}
       [] ax = 2 -> Range(s.org) \cap Range(t.org) = {}
       [] OTHER -> s.val = t.val /\ Range(s.dev) \cap Range(t.dev) = {}
\* outside axis 1, columns are united by name
ConcatCols(s, t, ax) == IF ax = 1 THEN s.cols \o t.cols
                        ELSE s.cols \o SelectSeq(t.cols, LAMBDA x : x \notin Range(s.cols))
ColCell(t, i, col, o, d) == LET p == Pos(t.cols, col) IN IF p = 0 THEN "0" ELSE t.v[i][p][o][d]
Concat2(s, t, ax) ==
  LET cols == ConcatCols(s, t, ax)
      w == [s EXCEPT !.cols = cols,
              !.keys = IF ax = 0 THEN s.keys \o t.keys ELSE s.keys,
              !.org  = IF ax = 2 THEN s.org \o t.org ELSE s.org,
              !.dev  = IF ax = 3 THEN s.dev \o t.dev ELSE s.dev,
              !.vd   = IMax(s.vd, t.vd)]
  IN [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d :
        CASE ax = 0 -> IF i <= NI(s) THEN ColCell(s, i, cols[c], o, d) ELSE ColCell(t, i - NI(s), cols[c], o, d)
          [] ax = 1 -> IF c <= NC(s) THEN s.v[i][c][o][d] ELSE t.v[i][c - NC(s)][o][d]
          [] ax = 2 -> IF o <= NO(s) THEN ColCell(s, i, cols[c], o, d) ELSE ColCell(t, i, cols[c], o - NO(s), d)
          [] OTHER  -> IF d <= ND(s) THEN ColCell(s, i, cols[c], o, d) ELSE ColCell(t, i, cols[c], o, d - ND(s)))]

RECURSIVE ConcatN(_, _)
ConcatN(ts, ax) == IF Len(ts) = 1 THEN ts[1] ELSE Concat2(ConcatN(SubSeq(ts, 1, Len(ts)-1), ax), ts[Len(ts)], ax)
ConcatAllOk(ts, ax) == \A j \in 2..Len(ts) : \A k \in 1..(j-1) : ConcatOk(ts[k], ts[j], ax)

Rename(t, ax, lab) == CASE ax = 1 -> [t EXCEPT !.cols = lab]
                        [] ax = 2 -> [t EXCEPT !.org = lab]
                        [] ax = 3 -> [t EXCEPT !.dev = lab]
                        [] OTHER -> [t EXCEPT !.keys = lab]

\* new or replaced column
SetCol(t, name, u) ==       \* u : a single-column triangle on the same index/origin/dev axes
  LET p == Pos(t.cols, name)
      n == IF p = 0 THEN NC(t) + 1 ELSE p
      w == [t EXCEPT !.cols = IF p = 0 THEN Append(t.cols, name) ELSE t.cols]
  IN [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d : IF c = n THEN u.v[i][1][o][d] ELSE t.v[i][c][o][d])]

\* drop leading/trailing origins and ages that are empty in every index row and column
DropNa(t) ==
  LET some(o, d) == \E i \in 1..NI(t), c \in 1..NC(t) : ~RIsZero(t.v[i][c][o][d])
      no == {o \in 1..NO(t) : \E d \in 1..ND(t) : some(o, d)}
      nd == {d \in 1..ND(t) : \E o \in 1..NO(t) : some(o, d)}
      O == Where(NO(t), LAMBDA o : MinS(no) <= o /\ o <= MaxS(no))
      D == IF ND(t) = 1 THEN <<1>> ELSE Where(ND(t), LAMBDA d : MinS(nd) <= d /\ d <= MaxS(nd))
  IN Sel(t, AllI(t), AllC(t), O, D)
DropNaOk(t) == \E i \in 1..NI(t), c \in 1..NC(t), o \in 1..NO(t), d \in 1..ND(t) : ~RIsZero(t.v[i][c][o][d])

\* shift along origin (2) or development (3): labels stay, amounts move
Shift(t, n, ax) ==
  LET src(p) == p + n IN
  [t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d :
     IF ax = 3 THEN (IF src(d) \in 1..ND(t) THEN t.v[i][c][o][src(d)] ELSE "0")
     ELSE (IF src(o) \in 1..NO(t) THEN t.v[i][c][src(o)][d] ELSE "0"))]

---------------------------------------------------------------------------
(* Arithmetic: operands are aligned by label; a missing amount counts as 0 *)
(* in sums and differences and stays missing in products and quotients.    *)
BinOp(op, a, b) == CASE op = "+" -> RAdd(a, b) [] op = "-" -> RSub(a, b)
                     [] op = "*" -> RMul(a, b)
                     [] op = "/" -> (IF RIsZero(b) THEN "0" ELSE RDiv(a, b))
                     [] OTHER -> "nan"
\* union of two sorted integer label sequences
UnionAx(a, b) == SortedInts(Range(a) \cup Range(b))
AlignAx(a, b) == IF Len(b) = 1 THEN a ELSE IF Len(a) = 1 THEN b ELSE IF a = b THEN a ELSE UnionAx(a, b)
AlignCols(a, b) == IF Len(a) = 1 /\ Len(b) > 1 THEN b ELSE IF Len(b) = 1 THEN a
                   ELSE a \o SelectSeq(b, LAMBDA x : x \notin Range(a))
\* which position of label x an operand contributes: a singleton axis is broadcast
BPos(s, x) == IF Len(s) = 1 THEN 1 ELSE Pos(s, x)
Get(t, i, c, o, d) == IF i = 0 \/ c = 0 \/ o = 0 \/ d = 0 THEN "0" ELSE t.v[i][c][o][d]
\* index alignment: same level names -> union of keys (keys supplies the order: the common
\* order when both agree, otherwise sorted); a single row is broadcast
ArithKeys(s, t, sorted) ==
  IF NI(t) = 1 /\ NI(s) > 1 THEN s.keys
  ELSE IF NI(s) = 1 /\ NI(t) > 1 THEN t.keys
  ELSE IF NI(s) = 1 /\ NI(t) = 1 THEN (IF s.klab = t.klab THEN s.keys
                                       ELSE IF Len(s.klab) > Len(t.klab) THEN s.keys ELSE t.keys)
  ELSE IF s.keys = t.keys /\ s.klab = t.klab THEN s.keys
  ELSE sorted
ArithKlab(s, t) ==
  IF NI(t) = 1 /\ NI(s) > 1 THEN s.klab
  ELSE IF NI(s) = 1 /\ NI(t) > 1 THEN t.klab
  ELSE IF NI(s) = 1 /\ NI(t) = 1 /\ s.klab # t.klab
       THEN (IF Len(s.klab) > Len(t.klab) THEN s.klab ELSE t.klab)
  ELSE IF Len(t.klab) > Len(s.klab) THEN t.klab ELSE s.klab
\* operands indexed at different levels: the coarser one is matched by the levels they share
Finer(s, t) == IF Len(t.klab) > Len(s.klab) THEN t ELSE s
Coarse(s, t) == IF Len(t.klab) > Len(s.klab) THEN s ELSE t
Multi(s, t) == NI(s) > 1 /\ NI(t) > 1
Ambiguous(s, t) == Multi(s, t) /\ ~(Range(Coarse(s, t).klab) \subseteq Range(Finer(s, t).klab))
DiffLevels(s, t) == Multi(s, t) /\ Len(s.klab) # Len(t.klab)
LabelOf(key, L, M) == Pick(key, [k \in 1..Len(M) |-> Pos(L, M[k])])
Unmatched(s, t) == LET f == Finer(s, t) g == Coarse(s, t) IN
                   Range(g.keys) \ {LabelOf(f.keys[i], f.klab, g.klab) : i \in 1..NI(f)} # {}
IRow(x, key, L) == IF NI(x) = 1 THEN 1 ELSE Pos(x.keys, IF x.klab = L THEN key ELSE LabelOf(key, L, x.klab))
GrainOk(s, t) == s.og = t.og /\ (s.dg = t.dg \/ IMin(ND(s), ND(t)) = 1)
Arith(op, s, t, sorted) ==
  LET keys == ArithKeys(s, t, sorted)
      cols == AlignCols(s.cols, t.cols)
      org  == AlignAx(s.org, t.org)
      dev  == AlignAx(s.dev, t.dev)
      w == [s EXCEPT !.keys = keys, !.klab = ArithKlab(s, t), !.cols = cols, !.org = org, !.dev = dev,
              !.val = IF ND(s) = 1 /\ ND(t) > 1 THEN t.val ELSE s.val,
              !.dg  = IF ND(s) = 1 /\ ND(t) > 1 THEN t.dg ELSE s.dg,
              !.pat = s.pat /\ t.pat,
              !.vd  = IMax(s.vd, t.vd)]
      pc(x, c) == IF NC(x) = 1 THEN 1 ELSE Pos(x.cols, cols[c])
      r == [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d :
              BinOp(op, Get(s, IRow(s, keys[i], w.klab), pc(s, c), BPos(s.org, org[o]), BPos(s.dev, dev[d])),
                        Get(t, IRow(t, keys[i], w.klab), pc(t, c), BPos(t.org, org[o]), BPos(t.dev, dev[d]))))]
  IN IF op \in {"+", "-"} THEN Mask(r) ELSE r
\* with a number
ArithNum(op, t, x) ==
  LET r == [t EXCEPT !.v = MapV(t, LAMBDA a :
              CASE op = "+" -> RAdd(a, x) [] op = "-" -> RSub(a, x)
                [] op = "*" -> RMul(a, x) [] op = "/" -> RDiv(a, x)
                [] op = "r-" -> RSub(x, a)
                [] op = "r/" -> (IF RIsZero(a) THEN "0" ELSE RDiv(x, a)) [] OTHER -> "nan")]
  IN IF op \in {"+", "-", "r-"} THEN Mask(r) ELSE r

---------------------------------------------------------------------------
(* Link ratios: successive cumulative amounts, undefined when either is    *)
(* missing, and only for cells whose successor is already observed.        *)
LinkRatio(t) ==
  LET n == ND(t) - 1
      b == Slice(t, AllI(t), AllC(t), AllO(t), Iota(n))
      r(i, c, o, d) == IF RIsZero(t.v[i][c][o][d]) \/ RIsZero(t.v[i][c][o][d+1]) THEN "0"
                       ELSE RDiv(t.v[i][c][o][d+1], t.v[i][c][o][d])
      u == [b EXCEPT !.v = BuildAs(b, r)]
  IN [(IF IsFull(b) THEN u ELSE SelValn(u, "<", u.vd)) EXCEPT !.pat = TRUE, !.cum = "F"]

---------------------------------------------------------------------------
(* Grain: coarser origins are sums of their fine origins at the same       *)
(* valuation, coarser development keeps every step-th valuation counted    *)
(* back from the latest (cumulative) or sums the step (incremental).       *)

\* start of the coarse period of length g containing month m, for periods closing in month cm (1..12)
PStart(m, g, cm) == m - ((m - cm) % g)
\* last month of the last origin period, as a month of the year 1..12
LastClose(t) == ((t.org[NO(t)] + GLen(t.og) - 1) % 12) + 1
GrainRank(g) == CASE g = "Y" -> 1 [] g = "S" -> 2 [] g = "Q" -> 3 [] OTHER -> 4
Coarser(old) == CASE old = "Y" -> {"Y"} [] old = "S" -> {"S", "Y"} [] old = "Q" -> {"Q", "S", "Y"}
                  [] OTHER -> {"M", "Q", "S", "Y"}
GrainValid(t, og, dg) == og \in Coarser(t.og) /\ dg \in Coarser(t.dg) /\ GrainRank(og) <= GrainRank(dg)
\* groups of consecutive fine origins; cm is the closing month of the coarse periods
CoarseOrg(t, og, cm) ==
  IF og = t.og THEN t.org ELSE SortedInts({PStart(t.org[o], GLen(og), cm) : o \in 1..NO(t)})
Grain(t, og, dg, cm, hint) ==
  LET u    == DevToVal(t)
      g    == GLen(og)
      org2 == CoarseOrg(t, og, cm)
      sub(o) == IF og = t.og THEN {o}
                ELSE {p \in 1..NO(t) : PStart(t.org[p], g, cm) = org2[o]}
      l    == GLen(t.dg)
      \* valuations: padded back to the start of the first coarse origin ...
      padn == IF og # t.og /\ ND(u) > 1 THEN (u.dev[1] - org2[1]) \div l ELSE 0
      ax1  == [k \in 1..padn |-> u.dev[1] - l * (padn - k + 1)] \o u.dev
      \* ... then thinned to the new step, counted back from the latest
      st   == GLen(dg) \div l
      n    == Len(ax1)
      kept == IF n = 1 THEN <<1>> ELSE Where(n, LAMBDA k : (n - k) % st = 0)
      ax2  == Pick(ax1, kept)
      w == [u EXCEPT !.org = org2, !.dev = ax2, !.og = og, !.dg = IF n = 1 THEN u.dg ELSE dg]
      \* amount of coarse origin o at kept valuation k
      at(i, c, p, m) == CellAt(u, i, c, p, Pos(u.dev, m))
      lo(k) == IF k = 1 THEN 1 ELSE kept[k-1] + 1
      x == [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, k :
              LET ms == IF t.cum = "T" THEN {ax2[k]} ELSE {ax1[j] : j \in lo(k)..kept[k]}
                  ps == sub(o)
                  P == SortedInts(ps)
                  M == SortedInts(ms)
              IN RSum([a \in 1..Len(P) |-> RSum([b \in 1..Len(M) |-> at(i, c, P[a], M[b])])]))]
  IN IF t.val THEN x ELSE ValToDev(x, hint)
=============================================================================
