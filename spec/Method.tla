------------------------------- MODULE Method -------------------------------
(***************************************************************************)
(* Tails (patterns extended beyond the triangle) and reserving methods     *)
(* (ultimates from patterns, latest amounts and exposures).                *)
(*                                                                         *)
(* A triangle on the heap may carry patterns: x.at.ldf_, x.at.sigma_ ...   *)
(* A method completes a bare triangle with volume-weighted development and *)
(* no tail.                                                                *)
(***************************************************************************)
EXTENDS Dev

ATriP(t, tol) == [k |-> "trip", t |-> t, free |-> {}, tol |-> tol]     \* up to the order of index rows
ATriF(t, free, tol) == [k |-> "trip", t |-> t, free |-> free, tol |-> tol]
AAny == [k |-> "skip"]
AFlat(v, tol) == [k |-> "flat", v |-> v, tol |-> tol]          \* a table: [row][column]

DefPar == [np |-> <<-1>>, avg |-> <<"volume">>, sig |-> "log-linear", pres |-> 1, drop |-> <<>>, dval |-> <<>>,
           dh |-> <<0>>, dl |-> <<0>>, above |-> <<"inf">>, below |-> <<"0">>, grp |-> <<>>]
HasAt(x, n) == "at" \in DOMAIN x /\ n \in DOMAIN x.at /\ x.at[n].k = "tri"
Core(x) == [keys |-> x.keys, klab |-> x.klab, cols |-> x.cols, org |-> x.org, dev |-> x.dev, val |-> x.val,
            cum |-> x.cum, pat |-> x.pat, vd |-> x.vd, og |-> x.og, dg |-> x.dg, v |-> x.v]
NormT(t) == [t EXCEPT !.v = MapV(t, RNorm)]

---------------------------------------------------------------------------
(* Patterns and their lookup *)
\* the row / column of a pattern that applies to a row / column of an amount triangle
PRow(L, key, klab) == IF NI(L) = 1 THEN 1
                      ELSE IF L.klab = klab THEN Pos(L.keys, key)
                      ELSE IF Range(L.klab) \subseteq Range(klab) THEN Pos(L.keys, LabelOf(key, klab, L.klab)) ELSE 0
PCol(L, col) == IF NC(L) = 1 THEN 1 ELSE Pos(L.cols, col)
POrg(L, o) == IF NO(L) = 1 THEN 1 ELSE o
Applies(L, x) == /\ \A i \in 1..NI(x) : PRow(L, x.keys[i], x.klab) # 0
                 /\ \A c \in 1..NC(x) : PCol(L, x.cols[c]) # 0
                 /\ (NC(x) = 1 => NC(L) = 1) /\ (NI(x) = 1 => NI(L) = 1)
                 /\ (L.klab # x.klab => \A k \in 1..NI(L) : \E i \in 1..NI(x) : PRow(L, x.keys[i], x.klab) = k)
                 /\ (NO(L) = 1 \/ L.org = x.org)
                 /\ L.cum = "F"
F1(x) == IF RIsZero(x) THEN "1" ELSE x
Ldf(L, x, i, c, o, d) == F1(L.v[PRow(L, x.keys[i], x.klab)][PCol(L, x.cols[c])][POrg(L, o)][d])
\* age-to-ultimate factor at position d (1 beyond the pattern)
Cdf(L, x, i, c, o, d) == RProd([k \in 1..IMax(0, ND(L) - d + 1) |-> Ldf(L, x, i, c, o, d + k - 1)])

\* the pattern of a triangle without one
BareLdf(x) == PatOf(x, DevFit(IncrToCum(x), DefPar).slope)
RawLdf(x) == IF HasAt(x, "ldf_") THEN Core(x.at.ldf_.t) ELSE BareLdf(x)

---------------------------------------------------------------------------
(* The age axis of a tail: one more age for the step that leaves the       *)
(* triangle and as many as the projection period covers.                   *)
AvePer(dg, proj) == (proj \div 12) * (12 \div GLen(dg))
ExtDev(L, n) == L.dev \o [k \in 1..(n+1) |-> L.dev[ND(L)] + k * GLen(L.dg)]
TailTri(L, ave, F(_,_,_)) ==
  LET w == [L EXCEPT !.dev = ExtDev(L, ave)] IN
  [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d : F(i, c, d))]
\* a constant tail, spread over the projected ages with geometric decay
DecaySeed(tail, r) ==
  LET a == RDiv("1", RSub("1", RMul(r, r))) b == RDiv("1", RSub("1", r)) c == RNeg(RLn(tail)) IN
  RDiv(RAdd(RNeg(b), RSqrt(RSub(RMul(b, b), RMul("4", RMul(a, c))))), RMul("2", a))
ConstLdf(x, L, p) ==
  LET ave == AvePer(x.dg, p.proj)
      n == ND(L) + ave + 1
      at == IF p.att = 0 THEN ND(x) ELSE MinS({d \in 1..ND(x) : x.dev[d] >= p.att})      \* first position replaced
      m == n - at + 1
      seed == IF REq(p.tail, "1") THEN "0" ELSE DecaySeed(p.tail, p.decay)
      g(k) == RTrim(RAdd("1", RMul(seed, RPow(p.decay, k - 1))))
      last == RTrim(RDiv(p.tail, RProd([k \in 1..(m-1) |-> g(k)])))
  IN TailTri(L, ave, LAMBDA i, c, d : IF d < at THEN L.v[i][c][1][d]
                                      ELSE IF d = n THEN last ELSE g(d - at + 1))
DefTail == [tail |-> "1", decay |-> "0.5", att |-> 0, proj |-> 12]

\* least squares of y on x over the positions in K
OLSslope(K, X(_), Y(_)) ==
  LET n == ToString(Cardinality(K))
      sx == SumO(K, X) sy == SumO(K, Y) sxy == SumO(K, LAMBDA k : RMul(X(k), Y(k))) sxx == SumO(K, LAMBDA k : RMul(X(k), X(k)))
  IN RTrim(RDiv(RSub(sxy, RDiv(RMul(sx, sy), n)), RSub(sxx, RDiv(RMul(sx, sx), n))))
OLSicept(K, X(_), Y(_), s) == LET n == ToString(Cardinality(K)) IN RTrim(RSub(RDiv(SumO(K, Y), n), RMul(s, RDiv(SumO(K, X), n))))
\* extrapolated curve: predictions for the 1st, 2nd ... development step
CurveX(p, k) == IF p.curve = "exponential" THEN ToString(k) ELSE RLn(ToString(k))
CurveIn(p, nl, st, d) ==
  IF p.fl # <<>> THEN p.fl[d] = 1
  ELSE d >= (IF p.fp[1] = 0 THEN 1 ELSE p.fp[1] \div st) /\ d <= (IF p.fp[2] = 0 THEN nl ELSE (p.fp[2] \div st) - 1)
CurveK(x, L, p, i, c) ==
  LET lo == IF RLt(p.lo, "1") THEN "1" ELSE p.lo IN
  {d \in 1..(ND(x)-1) : /\ CurveIn(p, ND(x) - 1, GLen(x.dg), d)
                        /\ ((p.err = "raise" /\ ~RIsZero(L.v[i][c][1][d])) \/ (p.err # "raise" /\ RLt(lo, L.v[i][c][1][d]) /\ (p.hi = "inf" \/ RLe(p.hi, lo) \/ RLe(L.v[i][c][1][d], p.hi))))}
CurveFit(x, L, p) ==       \* [row][column] -> [ok, s, b]
  TLCEval([i \in 1..NI(L) |-> [c \in 1..NC(L) |->
    LET K == CurveK(x, L, p, i, c)
        Y(d) == RLn(RSub(L.v[i][c][1][d], "1")) X(d) == CurveX(p, d)
        ok == Cardinality(K) >= 2 /\ \A d \in K : RLt("1", L.v[i][c][1][d])
        s == IF ok THEN OLSslope(K, X, Y) ELSE "any"
    IN [ok |-> ok, s |-> s, b |-> IF ok THEN OLSicept(K, X, Y, s) ELSE "any"]]])
CurvePred(p, f, k) == RTrim(RAdd("1", RExp(RAdd(f.b, RMul(f.s, CurveX(p, k))))))
\* a threshold hit within noise decides which points enter the regression
CurveTie(x, L, p) == \E i \in 1..NI(L), c \in 1..NC(L), d \in 1..(ND(x)-1) :
     \E q \in {p.lo, "1"} \cup (IF p.hi = "inf" THEN {} ELSE {p.hi}) : RLt(RAbs(RSub(L.v[i][c][1][d], q)), "1/1000000000")
CurveLdf(x, L, p, F) ==
  LET ave == AvePer(x.dg, p.proj)
      n == ND(L) + ave + 1
      at == IF p.att = 0 THEN ND(x) ELSE MinS({d \in 1..ND(x) : x.dev[d] >= p.att})
      m == ND(x) - 1 + p.extrap
  IN TailTri(L, ave, LAMBDA i, c, d :
       IF d < at THEN L.v[i][c][1][d]
       ELSE IF ~F[i][c].ok THEN "any"
       ELSE IF d < n THEN CurvePred(p, F[i][c], d)
       ELSE LET q == RTrim(RProd([k \in 1..(m - n + 1) |-> CurvePred(p, F[i][c], n + k - 1)])) IN
            IF RLt("1e200", q) \/ RIsNan(q) THEN "any" ELSE q)         \* beyond double precision

\* the tail factor: everything beyond the last age of the triangle
TailOf(T, ave, i, c) == RProd([k \in 1..(ave+1) |-> F1(T.v[i][c][1][ND(T) - ave - 1 + k])])
HasAny(T) == \E i \in 1..NI(T), c \in 1..NC(T), d \in 1..ND(T) : T.v[i][c][1][d] = "any"
\* variability of the tail step, by log-linear extrapolation to the age at which the fitted
\* development equals the tail
TailStat(L, S, T, ave) ==       \* S: sigma or standard errors by age
  LET w == [S EXCEPT !.dev = SubSeq(T.dev, 1, ND(S) + 1)]
      t(i, c) == TailOf(T, ave, i, c)
      none == \A i \in 1..NI(T), c \in 1..NC(T) : RLt(RAbs(RSub(t(i, c), "1")), "1/1000000000000")
      some == \E i \in 1..NI(T), c \in 1..NC(T) : RLt("1", t(i, c))
      KL(i, c) == {d \in 1..ND(L) : RLt("1", L.v[i][c][1][d])}
      KS(i, c) == {d \in 1..ND(S) : RLt("0", S.v[i][c][1][d])}
      X(d) == ToString(d)
      good(i, c) == Cardinality(KL(i, c)) >= 2 /\ Cardinality(KS(i, c)) >= 2 /\ RLt("1", t(i, c)) /\ RLt(t(i, c), "1000000")
      g(i, c) == LET sl == OLSslope(KL(i, c), X, LAMBDA d : RLn(RSub(L.v[i][c][1][d], "1")))
                     ic == OLSicept(KL(i, c), X, LAMBDA d : RLn(RSub(L.v[i][c][1][d], "1")), sl)
                     pd == RDiv(RSub(RLn(RSub(t(i, c), "1")), ic), sl)
                     s2 == OLSslope(KS(i, c), X, LAMBDA d : RLn(S.v[i][c][1][d]))
                     i2 == OLSicept(KS(i, c), X, LAMBDA d : RLn(S.v[i][c][1][d]), s2)
                     r == RExp(RAdd(i2, RMul(pd, s2)))
                 IN IF RLt(RAbs(sl), "1/1000000") \/ RIsNan(r) THEN "any" ELSE r
  IN [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d :
        IF d <= ND(S) THEN S.v[i][c][o][d]
        ELSE IF none THEN "0" ELSE IF ~good(i, c) THEN "any" ELSE g(i, c))]

---------------------------------------------------------------------------
(* What a method works with: the triangle by age and a pattern that covers *)
(* all its ages                                                            *)
DevForm(x) == IF x.val THEN ValToDev(x, <<>>) ELSE x
FullLdf(x, L) == IF ND(x) - ND(L) = 1 THEN ConstLdf(x, L, DefTail) ELSE L
DiagAge(x, o) == LET S == {d \in 1..ND(x) : Valn(x, o, d) = x.vd} IN IF S = {} THEN 0 ELSE MinS(S)
Diverges(L) == \E i \in 1..NI(L), c \in 1..NC(L), d \in 1..ND(L) : L.v[i][c][1][d] \notin {"0", "any"} /\ (RIsNan(L.v[i][c][1][d]) \/ RLt("1000000000000", L.v[i][c][1][d]))
MethodOk(x, L) == /\ x.val = FALSE /\ ~x.pat /\ x.cum # "N" /\ NO(x) > 1 /\ ND(x) > 1 /\ Regular(x) /\ ~IsUlt(x)
                  /\ ND(L) >= ND(x) - 1 /\ SubSeq(L.dev, 1, ND(x) - 1) = SubSeq(x.dev, 1, ND(x) - 1)
                  /\ Applies(L, x)
                  /\ ~Diverges(L)
                  /\ \A o \in 1..NO(x) : DiagAge(x, o) # 0
LatestAt(x, i, c, o) == IF x.cum = "F" THEN RSum(x.v[i][c][o]) ELSE LET d == DiagAge(x, o) IN IF d = 0 THEN "0" ELSE x.v[i][c][o][d]
UltTri(x, F(_,_,_)) == LET w == [Core(x) EXCEPT !.dev = <<ULTV>>, !.val = TRUE, !.cum = "T", !.vd = ULTV] IN
                       [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d : F(i, c, o))]
AnySub(a, b) == IF a = "any" \/ b = "any" THEN "any" ELSE RSub(a, b)

\* chain ladder: latest amount times age-to-ultimate factor
CLUlt(x, L) == UltTri(x, LAMBDA i, c, o : LET d == DiagAge(x, o) IN
                 IF d = 0 THEN "any" ELSE RMul(LatestAt(x, i, c, o), Cdf(L, x, i, c, o, d)))
\* expected loss (n = 0), Bornhuetter-Ferguson (n = 1), Benktander: n credibility steps from the expectation
WRow(w, x, i) == IF NI(w) = 1 THEN 1 ELSE Pos(w.keys, x.keys[i])
WCol(w, x, c) == IF NC(w) = 1 THEN 1 ELSE Pos(w.cols, x.cols[c])
WeightOk(w, x) == /\ ND(w) = 1 /\ w.org = x.org /\ (w.klab = x.klab \/ NI(w) = 1)
                  /\ (NI(w) = 1 \/ Range(w.keys) = Range(x.keys)) /\ (NC(w) = 1 \/ w.cols = x.cols)
                  /\ w.og = x.og
WAt(w, x, i, c, o) == w.v[WRow(w, x, i)][WCol(w, x, c)][o][1]
RECURSIVE Credible(_, _, _, _)
Credible(q, n, latest, expected) == IF n = 0 THEN expected ELSE RAdd(latest, RMul(q, Credible(q, n - 1, latest, expected)))
\* E(i, c, o): the a priori expected ultimate
BkUlt(x, L, n, E(_,_,_)) ==
  UltTri(x, LAMBDA i, c, o :
    LET d == DiagAge(x, o) f == Cdf(L, x, i, c, o, d) l == LatestAt(x, i, c, o) e == E(i, c, o) IN
    IF d = 0 \/ e = "any" THEN "any"
    ELSE IF RIsZero(RAdd(l, e)) /\ ~RIsZero(l) THEN "any"
    ELSE IF RIsZero(l) /\ RIsZero(e) THEN "0"
    ELSE RTrim(Credible(RSub("1", RDiv("1", f)), n, l, e)))

IbnrTri(x, U) == [U EXCEPT !.v = BuildAs(U, LAMBDA i, c, o, d : AnySub(U.v[i][c][o][1], LatestAt(x, i, c, o)))]
\* ultimates spread back over all ages by the pattern
ExpectTri(x, L, U) ==
  LET w == [U EXCEPT !.dev = L.dev \o <<ULTA>>, !.val = FALSE, !.cum = IF x.cum = "F" THEN "F" ELSE "T", !.dg = x.dg]
      at(i, c, o, d) == IF d > ND(L) THEN U.v[i][c][o][1] ELSE RDiv(U.v[i][c][o][1], Cdf(L, x, i, c, o, d))
  IN [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d :
        IF U.v[i][c][o][1] = "any" THEN "any"
        ELSE IF x.cum = "F" /\ d > 1 THEN RTrim(RSub(at(i, c, o, d), at(i, c, o, d-1))) ELSE RTrim(at(i, c, o, d)))]
\* the observed triangle completed to ultimate: the unreported amount emerges by the pattern
Share(L, x, i, c, o, d0, d) ==    \* of the run-off after position d0, by the end of position d
  LET p(k) == RProd([j \in 1..(k - d0 + 1) |-> Ldf(L, x, i, c, o, d0 + j - 1)])
      tot == RSub(p(ND(L)), "1") IN
  IF RIsZero(tot) THEN "0" ELSE RDiv(RSub(p(d), "1"), tot)
CompleteTri(x, L, U) ==
  LET st == GLen(x.dg)
      grid == SortedInts(Range(x.dev) \cup {L.dev[k] + st : k \in 1..(ND(L)-1)}) \o <<ULTA>>
      w == [U EXCEPT !.dev = grid, !.val = FALSE, !.cum = IF x.cum = "F" THEN "F" ELSE "T", !.vd = ULTV, !.dg = x.dg]
      y == IncrToCum(Core(x))
      cell(i, c, o, k) ==
        LET d0 == DiagAge(x, o) m == grid[k] u == U.v[i][c][o][1] ld == LatestAt(x, i, c, o) IN
        IF d0 = 0 \/ u = "any" THEN "any"
        ELSE IF m # ULTA /\ x.org[o] + m - 1 <= x.vd THEN (LET p == Pos(x.dev, m) IN IF p = 0 THEN "0" ELSE y.v[i][c][o][p])
        ELSE IF m = ULTA /\ RIsZero(RSub(Cdf(L, x, i, c, o, d0), "1")) /\ ~REq(u, ld) THEN u
        ELSE LET p == IF m = ULTA THEN ND(L) ELSE Pos(L.dev, m - st) IN
             RTrim(RAdd(ld, RMul(Share(L, x, i, c, o, d0, p), RSub(u, ld))))
      full == [w EXCEPT !.v = BuildAs(w, cell)]
  IN IF x.cum # "F" THEN full
     ELSE [full EXCEPT !.v = BuildAs(full, LAMBDA i, c, o, k :
             IF k = 1 THEN full.v[i][c][o][1] ELSE AnySub(full.v[i][c][o][k], full.v[i][c][o][k-1]))]

\* everything a method must show for its ultimates U
MethodAt(x, L, U) ==
  [ultimate_ |-> ATriP(U, "1e-8"),
   ibnr_ |-> ATriP(IbnrTri(x, U), "1e-7"),
   full_expectation_ |-> ATriP(ExpectTri(x, L, U), "1e-7"),
   full_triangle_ |-> ATriP(CompleteTri(x, L, U), "1e-7")]

MethodAt2(x, L, U) == [ultimate_ |-> ATriP(U, "1e-8"), ibnr_ |-> ATriP(IbnrTri(x, U), "1e-7"),
                       full_triangle_ |-> ATriP(CompleteTri(x, L, U), "1e-7")]

\* the generalised Cape Cod a priori of one origin: on-level latest amounts over reported
\* exposure, all origins weighted by their distance
Dist(a, b) == IF a > b THEN a - b ELSE b - a
CapeAp(x, L, w, decay, T(_), i, c, o) ==
  LET RE(j) == LET d == DiagAge(x, j) IN IF d = 0 THEN "0" ELSE RDiv(WAt(w, x, i, c, j), Cdf(L, x, i, c, j, d))
      wt(j) == RPow(decay, Dist(o, j))
      num == RSum([j \in 1..NO(x) |-> IF RIsZero(RE(j)) THEN "0" ELSE RMul(wt(j), RMul(LatestAt(x, i, c, j), T(j)))])
      den == RSum([j \in 1..NO(x) |-> RMul(wt(j), RE(j))])
  IN IF RIsZero(den) THEN "any" ELSE RTrim(RDiv(num, den))
\* trend from an origin's end to the valuation date, at a yearly rate
TrendTo(r, m) == RPowR(RAdd("1", r), RDiv(ToString(m), "12"))
OriginTrend(x, r, o) == TrendTo(r, x.vd - IMin(x.vd, x.org[o] + GLen(x.og) - 1))
=============================================================================
