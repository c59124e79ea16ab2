-------------------------------- MODULE Adj --------------------------------
(***************************************************************************)
(* Adjustments of a triangle before it is projected: trend, on-level       *)
(* factors, and the Berquist-Sherman restatement of the inner diagonals.   *)
(***************************************************************************)
EXTENDS Io

\* ---- trend: a yearly rate from each cell's date, held within the given dates, to the start date
TrendMonths(t, a, o, d) ==
  LET s == IF a.start = NONE THEN t.vd ELSE a.start
      e == IF a.end = NONE THEN t.org[1] ELSE a.end
      v == IF a.axis = "origin" THEN t.org[o] + GLen(t.og) - 1 ELSE Valn(t, o, d)
  IN s - Clip(v, IMin(s, e), IMax(s, e))
Trended(t, a) ==
  LET F == TLCEval([o \in 1..NO(t) |-> [d \in 1..ND(t) |-> TrendTo(a.r, TrendMonths(t, a, o, d))]]) IN
  [t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d : RTrim(RMul(t.v[i][c][o][d], F[o][d])))]
TrendOk(t) == ~t.pat /\ AnyVis(t) /\ Clean(t)
TrendExpect(t, a) == IF a.axis \notin {"origin", "valuation"} THEN RErr
                     ELSE IF ~TrendOk(t) THEN RSkip ELSE RT(Trended(t, a))
\* successive trends, each over its own dates; the estimator keeps the factor of every known amount
RECURSIVE TrendAll(_, _, _)
TrendAll(t, p, k) == IF k > Len(p.tr) THEN t
                     ELSE TrendAll(TLCEval(Trended(t, [r |-> p.tr[k], axis |-> p.axis, start |-> p.dates[k][1], end |-> p.dates[k][2]])), p, k + 1)
TrendFit(t, p) == IF p.axis \notin {"origin", "valuation"} THEN RErr
                  ELSE IF ~TrendOk(t) \/ Len(p.dates) < Len(p.tr) THEN RSkip
                  ELSE REst([trend_ |-> ATriT(Arith("/", TrendAll(Core(t), p, 1), Core(t), t.keys), {}, "1e-8")])

\* ---- on-level factors: today's rate level over the average level a period was written or earned at
\* policies run for a year from any day, so a change reaches the earned level over a year
DayNo(m) ==       \* of the first day of month m
  LET mo == (m % 12) + 1 a == (14 - mo) \div 12 y == (m \div 12) + 4800 - a mm == mo + 12 * a - 3 IN
  1 + ((153 * mm + 2) \div 5) + 365 * y + (y \div 4) - (y \div 100) + (y \div 400) - 32045
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
\* sum of min(j, n) for j = 1 .. x
Ramp(x, n) == IF x <= 0 THEN 0 ELSE IF x <= n THEN (x * (x + 1)) \div 2 ELSE ((n * (n + 1)) \div 2) + (x - n) * n
\* the share of the period a..b, in months or days, at the level of a change effective at e
LevelShare(a, b, e, n, vert) ==
  IF vert THEN RDiv(ToString(IMax(0, b - IMax(a, e) + 1)), ToString(b - a + 1))
  ELSE RDiv(ToString(Ramp(b - e + 1, n) - Ramp(a - e, n) + Ramp(b - e, n) - Ramp(a - e - 1, n)), ToString(2 * n * (b - a + 1)))
OlfOf(ch, first, len, p, last) ==      \* ch: the changes of one group; last: month the triangle ends
  LET day == p.ag = "D"
      at(k) == IF day THEN DayNo(ch[k].m) + ch[k].d - 1 ELSE ch[k].m
      a == IF day THEN DayNo(first) ELSE first
      b == IF day THEN DayNo(first + len) - 1 ELSE first + len - 1
      end == IF day THEN DayNo(last + 1) - 1 ELSE last
      n == IF ~day THEN 12 ELSE IF Leap(first \div 12) THEN 366 ELSE 365
      T == SortedInts({at(k) : k \in 1..Len(ch)} \cap {x \in {at(k) : k \in 1..Len(ch)} : x <= end})
      P(j) == RProd([k \in 1..Len(ch) |-> IF j > 0 /\ at(k) <= T[j] THEN RAdd("1", ch[k].r) ELSE "1"])
      avg == RAdd("1", RSum([j \in 1..Len(T) |-> RMul(RSub(P(j), P(j - 1)), LevelShare(a, b, T[j], n, p.vert))]))
  IN RTrim(RDiv(P(Len(T)), avg))
OlfFit(t, p, got) ==
  LET lev == SelectSeq(p.lev, LAMBDA n : n \in Range(t.klab))
      labs == IF lev = <<>> THEN <<>>        \* levels come in any order
              ELSE IF got.k = "est" /\ "olf_" \in DOMAIN got.e.at /\ got.e.at.olf_.k = "tri" /\ Range(got.e.at.olf_.t.klab) = Range(lev) THEN got.e.at.olf_.t.klab ELSE lev
      hint == IF lev = <<>> THEN <<>> ELSE GroupHint(got, "olf_", t, labs)
  IN IF t.pat \/ ~Regular(t) \/ IsUlt(t) \/ ~AnyValn(t, "==", t.vd) \/ (\E k \in 1..Len(p.lev) : p.lev[k] \notin Range(t.klab)) THEN RSkip
     ELSE IF p.ag = "D" /\ t.og \in {"Y"} /\ t.org[1] % 12 # 0 THEN RSkip        \* which of the two years is the leap year
     ELSE IF lev # <<>> /\ ~GroupOk(t, labs, hint) THEN RBad("groups")
     ELSE LET x == TLCEval(IF lev = <<>> THEN Core(t) ELSE GroupBy(Core(t), labs, hint, "sum"))
              one == TLCEval(ArithNum("+", ArithNum("*", x, "0"), "1"))
              ch(i) == SelectSeq(p.ch, LAMBDA h : \A k \in 1..Len(lev) : h.g[Pos(p.lev, lev[k])] = x.keys[i][Pos(x.klab, lev[k])])
              last == t.org[NO(t)] + GLen(t.og) - 1
              F == TLCEval([i \in 1..NI(x) |-> [o \in 1..NO(x) |-> OlfOf(ch(i), x.org[o], GLen(x.og), p, last)]])
          IN IF (\E i \in 1..NI(x) : ch(i) = <<>>) \/ ~AnyVis(one) THEN RSkip
             ELSE REst([olf_ |-> ATriT(LatestDiagonal([one EXCEPT !.v = BuildAs(one, LAMBDA i, c, o, d : RMul(one.v[i][c][o][d], F[i][o]))]), {}, "1e-8")])

\* ---- Berquist and Sherman
\* case reserves restated at the latest adequacy, claim closings at the latest disposal rates,
\* and payments read off the line of payments against closings
BsCol(t, n) == [Slice(t, AllI(t), <<Pos(t.cols, n)>>, AllO(t), AllD(t)) EXCEPT !.vd = t.vd]
BsOk(t, p) ==
  /\ Regular2(t) /\ t.cum = "T" /\ NO(t) = ND(t) /\ t.og = t.dg /\ t.dev[1] = GLen(t.dg)
  /\ \A o \in 1..NO(t) : DiagAge(t, o) = NO(t) - o + 1
  /\ ~HasAt(t, "ldf_")
  /\ LET P == BsCol(t, p.paid).v I == BsCol(t, p.inc).v R == BsCol(t, p.rep).v C == BsCol(t, p.clo).v IN
     \A i \in 1..NI(t), o \in 1..NO(t), d \in 1..ND(t) : Vis(t, o, d) =>
       /\ RLt("0", P[i][1][o][d]) /\ RLt("0", C[i][1][o][d]) /\ RLt("0", R[i][1][o][d])
       /\ ~REq(R[i][1][o][d], C[i][1][o][d]) /\ ~REq(I[i][1][o][d], P[i][1][o][d])
       /\ (d > 1 => RLt(C[i][1][o][d-1], C[i][1][o][d]))
BsFit(t, p) ==
  IF \E n \in {p.paid, p.inc, p.rep, p.clo} : n \notin Range(t.cols) THEN RErr
  ELSE IF ~BsOk(t, p) THEN RSkip
  ELSE LET P == BsCol(t, p.paid).v I == BsCol(t, p.inc).v R == BsCol(t, p.rep) C == BsCol(t, p.clo).v
           L == FullLdf(R, BareLdf(R))
           n == ND(t) dg(d) == NO(t) - d + 1         \* the origin whose latest age is the d-th
       IN IF ~MethodOk(R, L) THEN RSkip
          ELSE LET U == TLCEval(CLUlt(R, L).v)
                   back(o, d) == TrendTo(p.tr, t.vd - Valn(t, o, d))
                   avg(i, o, d) == RDiv(RSub(I[i][1][o][d], P[i][1][o][d]), RSub(R.v[i][1][o][d], C[i][1][o][d]))
                   inc(i, o, d) == RTrim(RAdd(P[i][1][o][d], RMul(RDiv(avg(i, dg(d), d), back(o, d)), RSub(R.v[i][1][o][d], C[i][1][o][d]))))
                   rate(i, o, d) == RTrim(RDiv(C[i][1][o][d], U[i][1][o][1]))
                   clo == TLCEval([i \in 1..NI(t) |-> [o \in 1..NO(t) |-> [d \in 1..n |-> IF Vis(t, o, d) THEN RTrim(RMul(rate(i, dg(d), d), U[i][1][o][1])) ELSE "0"]]])
                   paid(i, o, d) ==
                     LET m == n - o + 1
                         k0 == Cardinality({k \in 1..m : RLt(C[i][1][o][k], clo[i][o][d])})
                         k == IMin(IMax(k0, 1), m - 1)
                         x0 == C[i][1][o][k] x1 == C[i][1][o][k+1]
                         tie == \E j \in 1..m : RLt(RAbs(RSub(RDiv(C[i][1][o][j], clo[i][o][d]), "1")), "1/1000000000")
                         b == RDiv(RLn(RDiv(P[i][1][o][k+1], P[i][1][o][k])), RSub(x1, x0))
                     IN IF d = m THEN P[i][1][o][d]
                        ELSE IF tie THEN "any"
                        ELSE LET z == RTrim(RMul(P[i][1][o][k], RExp(RMul(b, RSub(clo[i][o][d], x0))))) IN IF RIsNan(z) \/ RLt("1e150", z) THEN "any" ELSE z
                   cell(i, c, o, d) == IF ~Vis(t, o, d) THEN "0"
                                       ELSE IF t.cols[c] = p.paid THEN paid(i, o, d) ELSE IF t.cols[c] = p.inc THEN inc(i, o, d)
                                       ELSE IF t.cols[c] = p.clo THEN clo[i][o][d] ELSE t.v[i][c][o][d]
               IN REst([adjusted_triangle_ |-> ATriT([Core(t) EXCEPT !.v = BuildAs(t, cell)], {}, "1e-6"),
                        disposal_rate_ |-> ATriT([Core(t) EXCEPT !.cols = <<p.clo>>, !.v = Build(NI(t), 1, NO(t), n, LAMBDA i, c, o, d : IF Vis(t, o, d) THEN rate(i, o, d) ELSE "0")], {}, "1e-8")])
BsTransform(e, x) ==
  IF "adjusted_triangle_" \notin DOMAIN e.at \/ e.at.adjusted_triangle_.k # "tri" THEN RSkip
  ELSE LET A == e.at.adjusted_triangle_.t four == {e.par.paid, e.par.inc, e.par.rep, e.par.clo} IN
       IF x.keys # A.keys \/ x.org # A.org \/ x.dev # A.dev \/ ~(four \subseteq Range(x.cols)) \/ x.val THEN RSkip
       ELSE RT([Core(x) EXCEPT !.v = BuildAs(x, LAMBDA i, c, o, d : IF x.cols[c] \in four THEN A.v[i][Pos(A.cols, x.cols[c])][o][d] ELSE x.v[i][c][o][d])])

ExpectA(op, a, in, got) ==
  CASE op = "trend" -> TrendExpect(in[1], a)
    [] op = "fit" /\ in[1].cls = "Trend" -> TrendFit(in[2], in[1].par)
    [] op = "fit" /\ in[1].cls = "ParallelogramOLF" -> OlfFit(in[2], in[1].par, got)
    [] op = "fit" /\ in[1].cls = "BerquistSherman" -> BsFit(in[2], in[1].par)
    \* the factors travel with the triangle
    [] op = "transform" /\ in[1].cls \in {"Trend", "ParallelogramOLF"} /\ DOMAIN in[1].at # {} -> RTri(Core(in[2]), [n \in DOMAIN in[1].at |-> ATSame(in[1].at[n])], {})
    [] op = "transform" /\ in[1].cls = "BerquistSherman" -> BsTransform(in[1], in[2])
    [] OTHER -> ExpectX(op, a, in, got)
=============================================================================
