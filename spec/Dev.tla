-------------------------------- MODULE Dev --------------------------------
(***************************************************************************)
(* Development patterns: what an estimator must have selected after fit.   *)
(*                                                                         *)
(* A fitted attribute is [k, ..., free, tol]:                              *)
(*   k = "tri" with t, "mat" with v (a rectangular array of numbers)       *)
(*   free: aspects of the triangle left open;  tol: relative tolerance     *)
(* "any" stands for a value the specification leaves open.                 *)
(***************************************************************************)
EXTENDS Session

ATri(t) == [k |-> "tri", t |-> t, free |-> {}, tol |-> "1e-8"]
ATriT(t, free, tol) == [k |-> "tri", t |-> t, free |-> free, tol |-> tol]
AMat(v, tol) == [k |-> "mat", v |-> v, tol |-> tol]

\* parameters given once or per age
AtAge(s, d, dflt) == IF Len(s) = 1 THEN s[1] ELSE IF d <= Len(s) THEN s[d] ELSE dflt
Expo(avg) == CASE avg = "regression" -> 0 [] avg = "volume" -> 1 [] OTHER -> 2

---------------------------------------------------------------------------
(* Which link ratios take part in the average of their age                 *)
NL(t) == ND(t) - 1
XX(t, i, c, o, d) == t.v[i][c][o][d]
YY(t, i, c, o, d) == t.v[i][c][o][d+1]
LinkOk(t, i, c, o, d) == ~RIsZero(XX(t, i, c, o, d)) /\ ~RIsZero(YY(t, i, c, o, d))
Link(t, i, c, o, d) == RDiv(YY(t, i, c, o, d), XX(t, i, c, o, d))
VisVals(t) == LET S == {Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)} IN SortedInts({m \in S : m <= t.vd})
\* the latest n origin periods' worth of diagonals
InN(t, V, n, o, d) == \/ n < 1 \/ n >= NO(t)
                      \/ Valn(t, o, d) >= V[IMax(1, Len(V) - n * (GLen(t.og) \div GLen(t.dg)))]
\* explicitly dropped origin / age pairs, and valuations a link ratio starts from
Dropped(t, p, o, d) == \/ \E k \in 1..Len(p.drop) : p.drop[k][1] = t.org[o] /\ p.drop[k][2] = t.dev[d]
                       \/ Valn(t, o, d) \in Range(p.dval)
\* the highest and lowest of the link ratios kept by n_periods; not applied when fewer than
\* `preserve` would remain
HLApplies(p) == \E k \in 1..Len(p.dh) : p.dh[k] # 0 \/ \E m \in 1..Len(p.dl) : p.dl[m] # 0
KeptHL(t, V, p, i, c, d) ==
  LET n == AtAge(p.np, d, -1)
      cand == {o \in 1..NO(t) : LinkOk(t, i, c, o, d) /\ InN(t, V, n, o, d)}
      h == AtAge(p.dh, d, 0) l == AtAge(p.dl, d, 0)
      below(o) == Cardinality({q \in cand : \/ RLt(Link(t, i, c, q, d), Link(t, i, c, o, d))
                                            \/ REq(Link(t, i, c, q, d), Link(t, i, c, o, d))
                                               /\ (RLt(XX(t, i, c, q, d), XX(t, i, c, o, d))
                                                   \/ (REq(XX(t, i, c, q, d), XX(t, i, c, o, d)) /\ q < o))})
      m == Cardinality(cand)
  IN IF m - h - l < p.pres THEN cand
     ELSE {o \in cand : below(o) >= l /\ below(o) < m - h}
\* thresholds, unless fewer than `preserve` link ratios of the age satisfy them
XApplies(p) == p.above # <<"inf">> \/ p.below # <<"0">>
Within(t, p, i, c, o, d) == LET a == AtAge(p.above, d, "inf") b == AtAge(p.below, d, "0") IN
                            /\ LinkOk(t, i, c, o, d)
                            /\ (a = "inf" \/ RLt(Link(t, i, c, o, d), a)) /\ RLt(b, Link(t, i, c, o, d))
KeptX(t, p, i, c, d) ==
  LET ok == {o \in 1..NO(t) : Within(t, p, i, c, o, d)} IN
  IF Cardinality(ok) < p.pres THEN {o \in 1..NO(t) : LinkOk(t, i, c, o, d)} ELSE ok
Used(t, V, p, i, c, d) ==
  LET n == AtAge(p.np, d, -1)
      s1 == {o \in 1..NO(t) : LinkOk(t, i, c, o, d) /\ InN(t, V, n, o, d) /\ ~Dropped(t, p, o, d)}
      s2 == IF HLApplies(p) THEN s1 \cap KeptHL(t, V, p, i, c, d) ELSE s1
  IN IF XApplies(p) THEN s2 \cap KeptX(t, p, i, c, d) ELSE s2
\* two equal link ratios may be ranked either way in floating point; a ratio on a threshold likewise
AmbiguousRank(t, p) ==
  \/ HLApplies(p) /\ \E i \in 1..NI(t), c \in 1..NC(t), d \in 1..NL(t) :
       LET L == {o \in 1..NO(t) : LinkOk(t, i, c, o, d)} IN
       Cardinality({Link(t, i, c, o, d) : o \in L}) < Cardinality(L)
  \/ XApplies(p) /\ \E i \in 1..NI(t), c \in 1..NC(t), o \in 1..NO(t), d \in 1..NL(t) :
       LinkOk(t, i, c, o, d) /\ \E q \in {AtAge(p.above, d, "inf"), AtAge(p.below, d, "0")} \ {"inf"} :
            RLt(RAbs(RSub(Link(t, i, c, o, d), q)), "1/1000000000")

---------------------------------------------------------------------------
(* The weighted regression through the origin of one age                   *)
SumO(S, F(_)) == RSum([k \in 1..Cardinality(S) |-> F(SortedInts(S)[k])])
\* weight x^(-e) times x*y, x*x
Num(t, i, c, d, e, S) == SumO(S, LAMBDA o : RMul(YY(t, i, c, o, d), RPow(XX(t, i, c, o, d), 1 - e)))
Den(t, i, c, d, e, S) == SumO(S, LAMBDA o : RPow(XX(t, i, c, o, d), 2 - e))
Slope(t, i, c, d, e, S) == IF S = {} THEN "0" ELSE RDivZ(Num(t, i, c, d, e, S), Den(t, i, c, d, e, S))
\* the mean squared error (undefined with a single point)
Mse(t, i, c, d, e, S) ==
  LET f == Slope(t, i, c, d, e, S)
  IN IF Cardinality(S) < 2 THEN "nan"
     ELSE RDiv(SumO(S, LAMBDA o : RMul(RPow(RSub(YY(t, i, c, o, d), RMul(f, XX(t, i, c, o, d))), 2), RPow(XX(t, i, c, o, d), 0 - e))),
               ToString(Cardinality(S) - 1))
Square(x) == RMul(x, x)
\* sigma of the ages with a single link ratio: extrapolated from the others
LogLinear(sg) ==      \* sg: one sigma per age, "nan" where unknown
  LET K == {d \in 1..Len(sg) : ~RIsNan(sg[d])}
      n == ToString(Cardinality(K))
      ly(d) == RLn(sg[d])
      x(d) == ToString(d)
      sx == SumO(K, x) sy == SumO(K, ly)
      sxy == SumO(K, LAMBDA d : RMul(x(d), ly(d))) sxx == SumO(K, LAMBDA d : RMul(x(d), x(d)))
      slope == RDiv(RSub(sxy, RDiv(RMul(sx, sy), n)), RSub(sxx, RDiv(RMul(sx, sx), n)))
      icept == RSub(RDiv(sy, n), RMul(slope, RDiv(sx, n)))
  IN [d \in 1..Len(sg) |-> IF d \in K THEN sg[d] ELSE IF Cardinality(K) < 2 THEN "0"
                           ELSE RExp(RAdd(RMul(x(d), slope), icept))]
MackSigma(sg) ==
  [d \in 1..Len(sg) |-> IF ~RIsNan(sg[d]) THEN sg[d]
     ELSE IF d < 3 \/ RIsNan(sg[d-1]) \/ RIsNan(sg[d-2]) THEN "0"
     ELSE RSqrt(RMin2(RDiv(RPow(sg[d-1], 4), RPow(sg[d-2], 2)), RMin2(RPow(sg[d-2], 2), RPow(sg[d-1], 2))))]
FillSigma(sg, how) == CASE how = "log-linear" -> LogLinear(sg) [] how = "mack" -> MackSigma(sg)
                        [] OTHER -> [d \in 1..Len(sg) |-> IF RIsNan(sg[d]) THEN "0" ELSE sg[d]]

---------------------------------------------------------------------------
\* the pattern triangle: one vector of factors per index row and column
PatOf(t, v) == [t EXCEPT !.org = <<t.org[1]>>, !.dev = SubSeq(t.dev, 1, NL(t)), !.pat = TRUE, !.cum = "F",
                         !.vd = ULTV, !.val = FALSE, !.v = v]
PatBuild(t, F(_,_,_)) == Build(NI(t), NC(t), 1, NL(t), LAMBDA i, c, o, d : F(i, c, d))
NegX(t) == \E i \in 1..NI(t), c \in 1..NC(t), o \in 1..NO(t), d \in 1..ND(t) : RLt(t.v[i][c][o][d], "0")
\* Development().fit on the cumulative triangle t (already grouped)
DevFit(t, p) ==
  LET V == VisVals(t)
      U == TLCEval([i \in 1..NI(t) |-> [c \in 1..NC(t) |-> [d \in 1..NL(t) |-> Used(t, V, p, i, c, d)]]])
      e(d) == Expo(AtAge(p.avg, d, "volume"))
      f == PatBuild(t, LAMBDA i, c, d : Slope(t, i, c, d, e(d), U[i][c][d]))
      mse == TLCEval([i \in 1..NI(t) |-> [c \in 1..NC(t) |-> [d \in 1..NL(t) |-> Mse(t, i, c, d, e(d), U[i][c][d])]]])
      open == NegX(t)                     \* square roots of negative weights are dropped from the sums
      flat(i, c) == \E d \in 1..NL(t) : ~RIsNan(mse[i][c][d]) /\ RLt(mse[i][c][d], "1/1000000")
      raw(i, c) == [d \in 1..NL(t) |-> IF RIsNan(mse[i][c][d]) THEN "nan" ELSE RSqrt(mse[i][c][d])]
      fill == IF p.np = <<1>> THEN "none" ELSE p.sig
      sgm == TLCEval([i \in 1..NI(t) |-> [c \in 1..NC(t) |->
               IF open \/ flat(i, c) THEN [d \in 1..NL(t) |-> "any"] ELSE FillSigma(raw(i, c), fill)]])
      se(i, c, d) ==
         IF sgm[i][c][d] = "any" THEN "any"
         ELSE IF ~RIsNan(mse[i][c][d]) THEN RSqrt(RDivZ(mse[i][c][d], Den(t, i, c, d, e(d), U[i][c][d])))
         ELSE IF ~LinkOk(t, i, c, 1, d) THEN "any"
         ELSE RDivZ(sgm[i][c][d], RSqrt(RPow(XX(t, i, c, 1, d), 2 - e(d))))
  IN [used |-> U, slope |-> f, sigma |-> PatBuild(t, LAMBDA i, c, d : sgm[i][c][d]), se |-> PatBuild(t, se)]
\* standardised residuals of the observed steps
Resid(t, p, r) ==
  LET e(d) == Expo(AtAge(p.avg, d, "volume"))
      b == Slice(t, AllI(t), AllC(t), AllO(t), Iota(NL(t)))
      x == [b EXCEPT !.v = BuildAs(b, LAMBDA i, c, o, d :
              IF o \notin r.used[i][c][d] THEN "0"
              ELSE IF Cardinality(r.used[i][c][d]) < 2 THEN "any"        \* zero up to noise
              ELSE IF r.sigma[i][c][1][d] = "any" THEN "any"
              ELSE RDivZ(RSub(YY(t, i, c, o, d), RMul(r.slope[i][c][1][d], XX(t, i, c, o, d))),
                         RSqrt(RMul(Square(r.sigma[i][c][1][d]), RPow(XX(t, i, c, o, d), e(d))))))]
  IN x
=============================================================================
