--------------------------------- MODULE Io ---------------------------------
(***************************************************************************)
(* The boundary of the library: triangles built from tables, tables made   *)
(* from triangles, and the trips to JSON, pickle and back.                 *)
(* A table is a sequence of rows [o, v, k, x]: month the origin period     *)
(* starts, month of valuation, labels, amounts.                            *)
(***************************************************************************)
EXTENDS Est

\* ---- construction
\* the grain is read off the months of the calendar that occur
GrainOf(S) ==
  LET m == SortedInts({x % 12 : x \in S}) IN
  IF Len(m) = 1 THEN "Y"
  ELSE IF \A k \in 2..Len(m) : m[k] - m[k-1] = 6 THEN "S"
  ELSE IF \A k \in 2..Len(m) : m[k] - m[k-1] = 3 THEN "Q" ELSE "M"
FinerG(a, b) == IF GrainRank(a) >= GrainRank(b) THEN a ELSE b
\* without valuations everything is valued at the end of the last origin period
LastPeriodEnd(O) == LET g == GrainOf(O) m == MaxS(O) IN (m - (m % (IF g = "S" THEN 3 ELSE GLen(g)))) + GLen(g) - 1
Amt(x) == IF x = "" THEN "0" ELSE x          \* a missing amount
Rows(rows, P(_)) == SelectSeq(rows, LAMBDA r : P(r))
Construct(rows, klab, cols, cum, pat, hint) ==
  LET O0 == TLCEval({rows[k].o : k \in 1..Len(rows)})
      V0 == TLCEval({rows[k].v : k \in 1..Len(rows)})
      og == GrainOf(O0)
      R == TLCEval(Rows(rows, LAMBDA r : r.o <= r.v))               \* development before origin is dropped
      O == TLCEval({R[k].o : k \in 1..Len(R)})
      V == TLCEval({R[k].v : k \in 1..Len(R)})
      vd == MaxS(V)
      oax == TLCEval(Steps(MinS(O), MaxS(O), GLen(og)))
      vax == TLCEval(Steps(MinS(V), vd, GLen(GrainOf(V0))))
      single == Cardinality({v \in Range(vax) : v >= oax[1]}) = 1
      ages == TLCEval(SortedInts({x \in {v - o + 1 : v \in Range(vax), o \in Range(oax)} : x > 0}))
      keys == TLCEval(Uniq([k \in 1..Len(R) |-> R[k].k]))
      t == TLCEval([keys |-> IF Distinct(hint) /\ Range(hint) = Range(keys) THEN hint ELSE keys, klab |-> klab, cols |-> cols,
            org |-> Steps(MinS(O), vd, GLen(og)), dev |-> IF single THEN <<vd>> ELSE ages, val |-> single,
            cum |-> cum, pat |-> pat, vd |-> vd, og |-> og, dg |-> FinerG(og, GrainOf(V0)), v |-> <<>>])
  IN [t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d :
        LET H == Rows(R, LAMBDA r : r.k = t.keys[i] /\ r.o = t.org[o] /\ r.v = Valn(t, o, d))
        IN IF H = <<>> THEN "0" ELSE RSum([k \in 1..Len(H) |-> Amt(H[k].x[c])]))]
\* rows valued at the ultimate become a last column of the triangle of the other rows
\* origins and ages after the last amount belong to neither
WithUlt(b, U) ==
  LET C == TLCEval({<<o, d>> \in (1..NO(b)) \X (1..ND(b)) : \E i \in 1..NI(b), c \in 1..NC(b) : ~RIsZero(b.v[i][c][o][d])})
      no == MaxS({z[1] : z \in C} \cup {Pos(b.org, U[k].o) : k \in 1..Len(U)})
      nd == MaxS({z[2] : z \in C})
      w == [b EXCEPT !.org = SubSeq(b.org, 1, no), !.dev = Append(SubSeq(b.dev, 1, nd), ULTA), !.vd = ULTV] IN
  [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d :
     IF d < Len(w.dev) THEN b.v[i][c][o][d]
     ELSE LET H == Rows(U, LAMBDA r : r.k = b.keys[i] /\ r.o = b.org[o]) IN IF H = <<>> THEN "0" ELSE RSum([k \in 1..Len(H) |-> Amt(H[k].x[c])]))]
\* every ultimate belongs to an origin and a row of the triangle, and something was observed
UltCovers(t, U) ==
  /\ \E i \in 1..NI(t), c \in 1..NC(t), o \in 1..NO(t), d \in 1..ND(t) : ~RIsZero(t.v[i][c][o][d])
  /\ \A k \in 1..Len(U) : U[k].k \in Range(t.keys) /\ U[k].o \in Range(t.org)
Hint(got) == IF got.k = "tri" THEN got.t.keys ELSE <<>>
ConstructExpect(a, got) ==
  IF a.bad # "" THEN RErr
  ELSE LET rows == TLCEval(IF a.dvl THEN a.rows
                   ELSE LET e == LastPeriodEnd({a.rows[k].o : k \in 1..Len(a.rows)}) IN [k \in 1..Len(a.rows) |-> [a.rows[k] EXCEPT !.v = e]])
           U == TLCEval(Rows(rows, LAMBDA r : r.v >= ULTV))
           B == TLCEval(Rows(rows, LAMBDA r : r.v < ULTV))
           klab == IF a.idx THEN a.klab ELSE <<"Total">>
           lab(R) == IF a.idx THEN R ELSE [k \in 1..Len(R) |-> [R[k] EXCEPT !.k = <<"Total">>]]
       IN IF B = <<>> \/ Rows(B, LAMBDA r : r.o <= r.v) = <<>> THEN RSkip
          ELSE LET t == TLCEval(Construct(lab(B), klab, a.cols, a.cum, FALSE, Hint(got))) IN
          IF got.k = "tri" /\ ~(Distinct(got.t.keys) /\ Range(got.t.keys) = Range(t.keys)) THEN RBad("index-rows")
          ELSE IF U = <<>> THEN RT(t)
          ELSE IF t.val \/ ~UltCovers(t, lab(U)) THEN RSkip
          ELSE RT(WithUlt(t, lab(U)))

\* ---- tables
AgeOf(t, o, d) == IF ~t.val THEN t.dev[d] ELSE IF t.dev[d] >= ULTV - 11 THEN ULTA ELSE t.dev[d] - t.org[o] + 1
CellIs(t, i, o, d) == \E c \in 1..NC(t) : ~RIsZero(t.v[i][c][o][d])
CellSet(t) == {<<i, o, d>> \in (1..NI(t)) \X (1..NO(t)) \X (1..ND(t)) : CellIs(t, i, o, d)}
RowLab(t, z, a) == <<t.keys[z[1]], t.org[z[2]],
                     IF ~a.imp /\ t.val THEN -1 ELSE AgeOf(t, z[2], z[3]),
                     IF a.imp \/ t.val THEN Valn(t, z[2], z[3]) ELSE -1>>
TabDiff(t, a, g) ==
  LET C == CellSet(t)
      lab(r) == <<r.k, r.o, r.d, r.v>>
      exp == {RowLab(t, z, a) : z \in C}
      got == {lab(g.rows[k]) : k \in 1..Len(g.rows)}
      head == <<"origin">> \o (IF a.imp THEN <<"development", "valuation">> ELSE IF t.val THEN <<"valuation">> ELSE <<"development">>)
  IN (IF g.ix # t.klab THEN {"index-names"} ELSE {})
     \cup (IF g.cols # head \o t.cols THEN {"headers"} ELSE {})
     \cup (IF Cardinality(got) # Len(g.rows) THEN {"repeated-row"} ELSE {})
     \cup (IF got \ exp # {} THEN {"unknown-row"} ELSE {}) \cup (IF exp \ got # {} THEN {"missing-row"} ELSE {})
     \cup (IF got = exp /\ g.cols = head \o t.cols /\ Cardinality(got) = Len(g.rows)
              /\ \E z \in C : LET k == CHOOSE k \in 1..Len(g.rows) : lab(g.rows[k]) = RowLab(t, z, a)
                              IN ~RMatch([c \in 1..NC(t) |-> t.v[z[1]][c][z[2]][z[3]]], g.rows[k].x) THEN {"values"} ELSE {})
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
DevName(t, d) == LET m == t.dev[d] IN
  IF ~t.val THEN ToString(m)
  ELSE CASE t.dg = "Y" -> ToString(m \div 12)
         [] t.dg = "M" -> ToString(m \div 12) \o "-" \o Pad2((m % 12) + 1)
         [] OTHER -> ToString(m \div 12) \o "Q" \o ToString(((m % 12) \div 3) + 1)
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "|" \o Join(Tail(s))
AxisNames(t, ax) == CASE ax = 1 -> [i \in 1..NI(t) |-> Join(t.keys[i])]
                      [] ax = 2 -> t.cols
                      [] ax = 3 -> [o \in 1..NO(t) |-> ToString(t.org[o])]
                      [] OTHER -> [d \in 1..ND(t) |-> DevName(t, d)]
LongAxes(t) == IF NI(t) = 1 /\ NC(t) = 1 THEN <<3, 4>> ELSE Where(4, LAMBDA k : Shape(t)[k] > 1)
GridOf(t) ==
  LET A == LongAxes(t)
      at(p, q) == LET ix == [k \in 1..4 |-> IF k = A[1] THEN p ELSE IF Len(A) = 2 /\ k = A[2] THEN q ELSE 1] IN t.v[ix[1]][ix[2]][ix[3]][ix[4]]
      r == AxisNames(t, A[1]) c == IF Len(A) = 2 THEN AxisNames(t, A[2]) ELSE <<"">>
  IN [r |-> r, c |-> c, x |-> [p \in 1..Len(r) |-> [q \in 1..Len(c) |-> at(p, q)]]]
GridDiff(e, g) == (IF e.r # g.r THEN {"row-labels"} ELSE {}) \cup (IF e.c # g.c THEN {"column-labels"} ELSE {})
                  \cup (IF e.r = g.r /\ e.c = g.c /\ ~RMatch(e.x, g.x) THEN {"values"} ELSE {})
\* half-years away from January and July have no plain name
Named(t) == ~t.pat /\ (t.og # "S" \/ t.org[1] % 6 = 0) /\ ~(t.val /\ t.dg = "S")
FrameExpect(t, a) ==
  IF t.pat \/ ~Distinct(t.keys) \/ ~Distinct(t.cols) \/ (t.val /\ ~Regular(t)) THEN RSkip
  ELSE IF a.kd \/ Len(LongAxes(t)) > 2 THEN
       (IF CellSet(t) = {} \/ (\E c \in 1..NC(t) : t.cols[c] \in Range(t.klab) \cup {"origin", "development", "valuation"}) THEN RSkip
        ELSE [k |-> "tab", t |-> t, imp |-> a.imp, mut |-> "no", free |-> {}])
  ELSE IF ~Named(t) THEN RSkip ELSE [k |-> "grid", g |-> GridOf(t), mut |-> "no", free |-> {}]

\* ---- round trips
\* a table of the amounts says everything about the triangle: the ends of its axes are populated
CellRows(t) == LET C == CellSet(t) RECURSIVE f(_) 
                   f(S) == IF S = {} THEN <<>> ELSE LET z == CHOOSE z \in S : TRUE IN
                           <<[o |-> t.org[z[2]], v |-> Valn(t, z[2], z[3]), k |-> t.keys[z[1]], x |-> <<"1">>]>> \o f(S \ {z})
               IN f(C)
SaysAll(t) ==
  /\ ~t.pat /\ ~IsUlt(t) /\ Regular(t) /\ (\A z \in CellSet(t) : Valn(t, z[2], z[3]) >= t.org[z[2]]) /\ Distinct(t.keys) /\ Distinct(t.cols) /\ CellSet(t) # {}
  /\ LET r == Construct(CellRows(t), t.klab, <<"x">>, t.cum, FALSE, t.keys) IN
     /\ ~r.val /\ r.og = t.og /\ r.dg = t.dg /\ r.vd = t.vd /\ r.org = t.org /\ r.keys = t.keys
     /\ IF t.val THEN t.dev = SortedInts({Valn(r, o, d) : o \in 1..NO(r), d \in 1..ND(r)} \cap {m \in Range(t.dev) : m <= t.vd}) ELSE r.dev = t.dev
Reordered(t, got) == IF got.k = "tri" THEN Permuted(t, got.t.keys) ELSE t
\* the patterns a triangle carries travel with it
Populated(p) == \E i \in 1..NI(p), c \in 1..NC(p), o \in 1..NO(p), d \in 1..ND(p) : ~RIsNan(p.v[i][c][o][d]) /\ ~RIsZero(p.v[i][c][o][d])
FullPat(p) == NO(p) = 1 /\ Distinct(p.keys) /\ \A i \in 1..NI(p), c \in 1..NC(p), d \in 1..ND(p) : ~RIsNan(p.v[i][c][1][d]) /\ ~RIsZero(p.v[i][c][1][d])
RoundTrip(how, x, got) ==
  CASE how = "pickle" -> (IF IsEst(x) THEN [k |-> "est-set", at |-> x.at, mut |-> "no", free |-> {}]
                          ELSE IF "at" \in DOMAIN x THEN RTri(Core(x), [n \in DOMAIN x.at |-> ATSame(x.at[n])], {}) ELSE RT(x))
    [] how = "json" -> (IF IsEst(x) THEN [k |-> "est-new", hp |-> x.hp, mut |-> "no", free |-> {}]
                        ELSE IF ~SaysAll(x) \/ x.cum = "N" \/ ~SaysAll(CumToIncr(x)) THEN RSkip
                        \* a pattern without a single number has no table (known finding)
                        ELSE IF got.k = "err" /\ "at" \in DOMAIN x /\ (\E n \in DOMAIN x.at : x.at[n].k = "tri" /\ ~Populated(x.at[n].t)) THEN RSkip
                        ELSE LET y == Reordered(Core(x), got) IN
                             IF "at" \in DOMAIN x /\ "ldf_" \in DOMAIN x.at /\ x.at.ldf_.k = "tri" /\ FullPat(x.at.ldf_.t)
                             THEN RTri(y, [ldf_ |-> [k |-> "trip", t |-> Core(x.at.ldf_.t), free |-> {"valuation-date"}, tol |-> "1e-9"]], {}) ELSE RT(y))
    [] OTHER -> (IF ~SaysAll(x) THEN RSkip ELSE LET y == Reordered(Core(x), got) IN IF x.val THEN RT(ValToDev(y, HintDev(got))) ELSE RT(y))

ExpectX(op, a, in, got) ==
  CASE op = "construct" -> ConstructExpect(a, got)
    [] op = "to_frame" -> FrameExpect(in[1], a)
    [] op = "trip" -> RoundTrip(a.how, in[1], got)
    [] OTHER -> ExpectE(op, a, in, got)
ResDiffX(x, e, g) ==
  CASE x.k = "tab" -> (IF g.k # "tab" THEN {"result-kind:tab/" \o g.k} ELSE TabDiff(x.t, [imp |-> x.imp], g))
    [] x.k = "grid" -> (IF g.k # "grid" THEN {"result-kind:grid/" \o g.k} ELSE GridDiff(x.g, g))
    [] OTHER -> ResDiffE(x, e, g)
=============================================================================
