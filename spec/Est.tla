-------------------------------- MODULE Est --------------------------------
(***************************************************************************)
(* Estimators in a session.  An estimator is [cls, par, hp, at]:           *)
(*   cls  its class          par  the parameters it was created with       *)
(*   hp   digest of get_params(), which no call but set_params may change  *)
(*   at   its fitted attributes ({} before fit)                            *)
(* The life cycle of every estimator is the same: new, then any number of  *)
(* fits, each of which replaces the fitted state by a function of its      *)
(* parameters and the triangle alone; transform and predict read it.       *)
(* ExpectE extends Expect to these calls.                                  *)
(***************************************************************************)
EXTENDS Mack

IsEst(x) == "cls" \in DOMAIN x
REst(at) == [k |-> "est", at |-> at, mut |-> "self", free |-> {}]
\* a triangle carrying patterns or projections
RTri(t, at, free) == [k |-> "tri", t |-> t, at |-> at, mut |-> "no", free |-> free]
NoAt == [x \in {} |-> "0"]

Regular2(t) == t.val = FALSE /\ ~t.pat /\ t.cum # "N" /\ NO(t) > 1 /\ ND(t) > 1 /\ Regular(t) /\ ~IsUlt(t)
\* the order of the groups is the implementation's choice
GroupHint(got, name, t, lab) == IF got.k = "est" /\ name \in DOMAIN got.e.at /\ got.e.at[name].k = "tri" THEN got.e.at[name].t.keys
                                ELSE Uniq([i \in 1..NI(t) |-> RowLabel(t, LevelPos(t, lab), i)])

---------------------------------------------------------------------------
DevFitAt(t, p) ==
  LET r == DevFit(t, p)
      ldf == PatOf(t, r.slope) IN
  [ldf_ |-> ATri(ldf),
   cdf_ |-> ATri(IncrToCum(ldf)),
   sigma_ |-> ATriT(PatOf(t, r.sigma), {}, "1e-5"),
   std_err_ |-> ATriT(PatOf(t, r.se), {}, "1e-5"),
   std_residuals_ |-> ATriT(SelValn(Resid(t, p, r), "<", t.vd), {"valuation-date", "cumulative"}, "1e-4")]

\* parameters that name something the triangle has; excluding every link ratio is refused
DevParOk(t, p) ==
  /\ Len(p.np) <= NL(t) /\ Len(p.avg) <= NL(t) /\ Len(p.dh) <= NL(t) /\ Len(p.dl) <= NL(t)
  /\ Range(p.grp) \subseteq Range(t.klab)
  /\ \A k \in 1..Len(p.drop) : p.drop[k][1] \in Range(t.org) /\ p.drop[k][2] \in Range(t.dev)
  /\ Range(p.dval) \subseteq {Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)}
  /\ p.dval = <<>> \/ \E i \in 1..NI(t), c \in 1..NC(t), o \in 1..NO(t), d \in 1..NL(t) :
       Valn(t, o, d+1) <= t.vd /\ Valn(t, o, d) \notin Range(p.dval) /\ (t.cum = "F" \/ (~RIsZero(t.v[i][c][o][d]) /\ ~RIsZero(t.v[i][c][o][d+1])))

Flat2(m) == Cat(m)                      \* a table row by row
TailPatterns(x) ==      \* the patterns a tail starts from: those the triangle carries, or default ones
  IF HasAt(x, "ldf_") THEN [n \in {"ldf_", "sigma_", "std_err_"} \cap DOMAIN x.at |-> Core(x.at[n].t)]
  ELSE LET r == DevFit(IncrToCum(x), DefPar) IN [ldf_ |-> PatOf(x, r.slope), sigma_ |-> PatOf(x, r.sigma), std_err_ |-> PatOf(x, r.se)]
TailAt(x, p, P, T, tol) ==
  LET ave == AvePer(x.dg, p.proj)
      base == [ldf_ |-> ATriT(T, {}, tol),
               tail_ |-> AMat(Flat2([i \in 1..NI(T) |-> [c \in 1..NC(T) |-> IF HasAny(T) THEN "any" ELSE TailOf(T, ave, i, c)]]), tol)]
      cdf == IF HasAny(T) THEN NoAt ELSE [cdf_ |-> ATriT(IncrToCum(T), {}, tol)]
      st == IF "sigma_" \in DOMAIN P
            THEN [n \in {"sigma_", "std_err_"} |-> IF HasAny(T) \/ HasAny(P[n]) THEN AAny ELSE ATriT(TailStat(P.ldf_, P[n], T, ave), {}, "1e-5")]
            ELSE NoAt
  IN cdf @@ st @@ base
TailOk(x, L, p) == /\ ~x.val /\ ~x.pat /\ x.cum # "N" /\ ND(x) > 2 /\ Regular(x) /\ ~IsUlt(x)
                   /\ NO(L) = 1 /\ ND(L) = ND(x) - 1 /\ L.dev = SubSeq(x.dev, 1, ND(L)) /\ L.cum = "F"
                   /\ p.proj >= 12
                   /\ (p.att = 0 \/ \E d \in 1..ND(x) : x.dev[d] >= p.att)
CurveAt(x, p, P) ==
  LET L == P.ldf_ F == CurveFit(x, L, p) T == CurveLdf(x, L, p, F)
      tab(f(_)) == AMat(Flat2([i \in 1..NI(L) |-> [c \in 1..NC(L) |-> f(F[i][c])]]), "1e-6")
  IN [slope_ |-> tab(LAMBDA r : r.s), intercept_ |-> tab(LAMBDA r : r.b)] @@ TailAt(x, p, P, T, "1e-6")
\* Bondy: each factor is the previous one raised to the power b; b is whatever minimises the squared
\* log errors (taken from the implementation and checked to be a stationary point)
ConstantPattern(x, p) ==
  LET L == [Core(x) EXCEPT !.org = <<x.org[1]>>, !.dev = SubSeq(x.dev, 1, NL(x)), !.pat = TRUE, !.cum = "F", !.vd = ULTV, !.val = FALSE]
      raw(d) == p.pat[Pos(p.ages, L.dev[d])]
      f(d) == IF p.style = "cdf" /\ d < ND(L) THEN RTrim(RDiv(raw(d), raw(d+1))) ELSE raw(d)
  IN [L EXCEPT !.v = BuildAs(L, LAMBDA i, c, o, d : f(d))]

\* methods
Bench == {"Benktander", "BornhuetterFerguson", "ExpectedLoss"}
Iters(e) == CASE e.cls = "BornhuetterFerguson" -> 1 [] e.cls = "ExpectedLoss" -> 0 [] OTHER -> e.par.n
Expected(x, w, ap) == LET E == UltTri(x, LAMBDA i, c, o : WAt(w, x, i, c, o)) IN [E EXCEPT !.v = BuildAs(E, LAMBDA i, c, o, d : RMul(ap, E.v[i][c][o][1]))]
MethodUlt(e, x, L, in) ==
  CASE e.cls = "Chainladder" -> CLUlt(x, L)
    [] e.cls \in Bench -> LET w == in[3] IN BkUlt(x, L, Iters(e), LAMBDA i, c, o : RMul(e.par.ap, WAt(w, x, i, c, o)))
    [] OTHER -> CLUlt(x, L)
CapeFactor(x, p, o) == OriginTrend(x, p.trend, o)
CapeTabs(x, L, w, p) ==
  LET ap == UltTri(x, LAMBDA i, c, o : CapeAp(x, L, w, p.decay, LAMBDA j : CapeFactor(x, p, j), i, c, o))
  IN [ap |-> ap, de |-> [ap EXCEPT !.v = BuildAs(ap, LAMBDA i, c, o, d : IF ap.v[i][c][o][1] = "any" THEN "any" ELSE RTrim(RDiv(ap.v[i][c][o][1], CapeFactor(x, p, o))))]]
CapeUlt(x, L, w, p, tabs) ==
  BkUlt(x, L, p.n, LAMBDA i, c, o : IF tabs.de.v[i][c][o][1] = "any" THEN "any" ELSE RMul(WAt(w, x, i, c, o), tabs.de.v[i][c][o][1]))
PadStat(S, x) == IF ND(S) >= ND(x) THEN S
                 ELSE [S EXCEPT !.dev = x.dev, !.v = BuildAs([S EXCEPT !.dev = x.dev], LAMBDA i, c, o, d : IF d <= ND(S) THEN S.v[i][c][o][d] ELSE "0")]
\* sigma and standard errors at every age of x, the step beyond the last one included
MackStat(x, n) == IF HasAt(x, "ldf_") THEN PadStat(Core(x.at[n].t), x)
                  ELSE LET r == DevFit(IncrToCum(x), DefPar) S == PatOf(x, IF n = "sigma_" THEN r.sigma ELSE r.se) IN
                       [S EXCEPT !.dev = x.dev, !.v = BuildAs([S EXCEPT !.dev = x.dev], LAMBDA i, c, o, d : IF d <= ND(S) THEN S.v[i][c][o][d] ELSE "0")]
\* a deviation extrapolated beyond all measure
Wild(S) == \E i \in 1..NI(S), c \in 1..NC(S), d \in 1..ND(S) : ~RIsNan(S.v[i][c][1][d]) /\ RLt("1e12", RAbs(S.v[i][c][1][d]))
MackFit(x, L) ==
  LET U == CLUlt(x, L) IN
  IF HasAt(x, "ldf_") /\ ("sigma_" \notin DOMAIN x.at) THEN RErr
  \* a tail on a triangle that was never developed says nothing of averages
  ELSE IF HasAt(x, "ldf_") /\ "average_" \notin DOMAIN x.at THEN RSkip
  ELSE IF x.cum # "T" \/ NO(L) # 1 \/ (HasAt(x, "ldf_") /\ Len(x.at.average_.v) # ND(x) - 1) THEN REst(MethodAt(x, L, U))
  ELSE LET avg == IF HasAt(x, "ldf_") THEN x.at.average_.v ELSE <<"volume">>
           S == TLCEval(MackStat(x, "sigma_")) E == TLCEval(MackStat(x, "std_err_"))
       IN IF HasAny(S) \/ HasAny(E) \/ Wild(S) \/ Wild(E) THEN REst(MethodAt(x, L, U)) ELSE REst(MethodAt(x, L, U) @@ MackAt(x, L, S, E, avg, U))
MethodFit(e, in) ==
  LET x == in[2] IN
  IF e.cls \in Bench \cup {"CapeCod"} /\ Len(in) < 3 THEN RErr
  ELSE IF ~Regular2(x) THEN RSkip
  ELSE LET L == FullLdf(x, RawLdf(x)) IN
  IF ~MethodOk(x, L) THEN RSkip
  ELSE IF e.cls = "Chainladder" THEN REst(MethodAt(x, L, CLUlt(x, L)))
  ELSE IF e.cls = "MackChainladder" THEN MackFit(x, L)
  ELSE IF ~WeightOk(in[3], x) THEN RSkip
  ELSE IF e.cls = "CapeCod" THEN
       LET t == CapeTabs(x, L, in[3], e.par) IN
       IF "trend_" \in DOMAIN x.at \/ "olf_" \in DOMAIN x.at \/ "olf_" \in DOMAIN in[3].at THEN RSkip
       ELSE REst([apriori_ |-> ATriF(t.ap, {"columns"}, "1e-7"), detrended_apriori_ |-> ATriF(t.de, {"columns"}, "1e-7")]
                 @@ MethodAt(x, L, CapeUlt(x, L, in[3], e.par, t)))
  ELSE REst(MethodAt(x, L, MethodUlt(e, x, L, in)))

DevExpect(e, in, got) ==
  LET t == in[2] p == e.par IN
  IF ~Regular2(t) \/ ~DevParOk(t, p) THEN RSkip
  ELSE LET hint == IF p.grp = <<>> THEN <<>> ELSE GroupHint(got, "ldf_", t, p.grp) IN
       IF p.grp # <<>> /\ ~GroupOk(t, p.grp, hint) THEN RBad("groups")
       ELSE LET g == IncrToCum(IF p.grp = <<>> THEN t ELSE GroupBy(t, p.grp, hint, "sum")) IN
            IF AmbiguousRank(g, p) THEN RSkip ELSE REst(DevFitAt(g, p))
TailExpect(e, in) ==
  LET x == in[2] p == e.par IN
  IF ~Regular2(x) THEN RSkip
  ELSE LET P == TailPatterns(x) IN
  IF ~TailOk(x, P.ldf_, p) THEN RSkip
  ELSE IF e.cls = "TailConstant" THEN REst(TailAt(x, p, P, ConstLdf(x, P.ldf_, p), "1e-8"))
  ELSE IF CurveTie(x, P.ldf_, p) THEN RSkip
  ELSE IF p.err = "raise" /\ \E i \in 1..NI(P.ldf_), c \in 1..NC(P.ldf_), d \in 1..ND(P.ldf_) : RLt(P.ldf_.v[i][c][1][d], "1") /\ ~RIsZero(P.ldf_.v[i][c][1][d]) THEN RErr
  ELSE REst(CurveAt(x, p, P))
FitExpect(e, in, got) ==
  CASE e.cls = "Development" -> DevExpect(e, in, got)
    [] e.cls = "DevelopmentConstant" -> (IF ~Regular2(in[2]) \/ ~(Range(SubSeq(in[2].dev, 1, NL(in[2]))) \subseteq Range(e.par.ages)) THEN RSkip
                                         ELSE LET L == ConstantPattern(in[2], e.par) IN REst([ldf_ |-> ATri(L), cdf_ |-> ATri(IncrToCum(L))]))
    [] e.cls \in {"TailConstant", "TailCurve"} -> TailExpect(e, in)
    [] e.cls \in Bench \cup {"Chainladder", "CapeCod", "MackChainladder"} -> MethodFit(e, in)
    [] OTHER -> RSkip

---------------------------------------------------------------------------
(* transform attaches what fit produced to an otherwise unchanged triangle *)
Carried == {"ldf_", "sigma_", "std_err_"}
ATSame(a) == IF a.k = "tri" THEN ATriT(Core(a.t), {}, "1e-9") ELSE AAny
Transformed(e, x) == RTri(Core(x), [n \in Carried \cap DOMAIN e.at |-> ATSame(e.at[n])], {})

---------------------------------------------------------------------------
(* predict applies the patterns of the fit to another triangle: rows the   *)
(* model does not know are dropped, ages it does not reach are refused.    *)
SharedLabs(a, b) == SelectSeq(a.klab, LAMBDA n : n \in Range(b.klab))
KeyOn(t, i, labs) == Pick(t.keys[i], [k \in 1..Len(labs) |-> Pos(t.klab, labs[k])])
Common2(a, b, labs) == {KeyOn(a, i, labs) : i \in 1..NI(a)} \cap {KeyOn(b, i, labs) : i \in 1..NI(b)}
RowsIn(a, b) == LET labs == SharedLabs(a, b) s == Common2(a, b, labs) IN
                IF (NI(a) = 1 /\ NI(b) = 1) \/ labs = <<>> \/ ((NI(a) = 1 \/ NI(b) = 1) /\ s = {}) THEN AllI(a)
                ELSE Where(NI(a), LAMBDA i : KeyOn(a, i, labs) \in s)
OnAges(x, ages) == [Core(x) EXCEPT !.dev = ages, !.v = Build(NI(x), NC(x), NO(x), Len(ages), LAMBDA i, c, o, d :
                        LET p == Pos(x.dev, ages[d]) IN IF p = 0 THEN "0" ELSE x.v[i][c][o][p])]
KeepRows(t, I) == Sel(t, I, AllC(t), AllO(t), AllD(t))
\* the age axis of the model is that of its full triangle, up to the latest age of the fit
ModelDev(e) == LET L == e.at.ldf_.t IN L.dev
\* standard errors of a triangle laid out like the one of the fit, from the statistics of the fit
MackPredict(e, m, x, L) ==
  IF ~({"fit_sigma_", "fit_std_err_", "fit_average_"} \subseteq DOMAIN e.at) \/ e.at.fit_sigma_.k # "tri" \/ e.at.fit_std_err_.k # "tri" \/ x.cum # "T" \/ NO(L) # 1
     \/ x.keys # m.keys \/ x.cols # m.cols \/ x.org # m.org \/ x.dev # m.dev \/ x.vd # m.vd THEN RSkip
  ELSE LET U == CLUlt(x, L) S == PadStat(Core(e.at.fit_sigma_.t), x) E == PadStat(Core(e.at.fit_std_err_.t), x)
           base == [ldf_ |-> ATriF(L, {"valuation-date"}, "1e-9")] @@ MethodAt2(x, L, U)
           risks == MackAt(x, L, S, E, e.at.fit_average_.v, U)
       IN IF Len(e.at.fit_average_.v) \notin {1, ND(x) - 1} THEN RSkip
          ELSE IF HasAny(S) \/ HasAny(E) \/ Wild(S) \/ Wild(E) THEN RTri(x, base, {})
          ELSE RTri(x, base @@ [n \in DOMAIN risks \ {"summary_", "total_mack_std_err_"} |-> risks[n]], {})
PredictExpect(e, in) ==
  LET x0 == Core(in[2]) L0 == Core(e.at.ldf_.t) IN
  IF ~Regular2(in[2]) \/ "X_" \notin DOMAIN e.at THEN RSkip
  ELSE IF \E d \in 1..ND(x0) : x0.dev[d] > L0.dev[ND(L0)] THEN RErr
  ELSE LET m == e.at.X_.t
           ages == SortedInts(Range(x0.dev) \cup Range(m.dev))
           y0 == OnAges(x0, ages)
           I == RowsIn(y0, L0) J == RowsIn(L0, y0)
       IN IF I = <<>> \/ J = <<>> \/ m.og # x0.og \/ m.dg # x0.dg \/ ~RegDev(y0) THEN RSkip
          ELSE LET x == KeepRows(y0, I) L == KeepRows(L0, J) IN
          IF ~MethodOk(x, L) THEN RSkip
          ELSE IF e.cls = "MackChainladder" THEN MackPredict(e, m, x, L)
          ELSE IF e.cls = "Chainladder" THEN RTri(x, [ldf_ |-> ATriF(L, {"valuation-date"}, "1e-9")] @@ MethodAt2(x, L, CLUlt(x, L)), {})
          ELSE IF Len(in) < 3 THEN RSkip
          ELSE IF e.cls \in Bench THEN (IF ~WeightOk(in[3], x) THEN RSkip ELSE RTri(x, [ldf_ |-> ATriF(L, {"valuation-date"}, "1e-9")] @@ MethodAt2(x, L, MethodUlt(e, x, L, in)), {}))
          ELSE RSkip

ExpectE(op, a, in, got) ==
  CASE op = "new" -> [k |-> "est-new", hp |-> "", mut |-> "no", free |-> {}]
    \* a clone has the parameters and nothing of the fit
    [] op = "clone" -> [k |-> "est-new", hp |-> in[1].hp, mut |-> "no", free |-> {}]
    \* new parameters do not touch what an earlier fit produced
    [] op = "set" -> [k |-> "est-set", at |-> in[1].at, mut |-> "self", free |-> {}]
    [] op = "attr" -> (IF a.name \in DOMAIN in[1].at /\ in[1].at[a.name].k = "tri" THEN RTri(Core(in[1].at[a.name].t), NoAt, {}) ELSE RSkip)
    [] op = "fit" -> FitExpect(in[1], in, got)
    [] op = "predict" -> (IF "ultimate_" \in DOMAIN in[1].at /\ "ldf_" \in DOMAIN in[1].at THEN PredictExpect(in[1], in) ELSE RSkip)
    [] op = "transform" -> (IF "ldf_" \in DOMAIN in[1].at THEN Transformed(in[1], in[2]) ELSE RSkip)
    [] OTHER -> IF Len(in) > 0 /\ \E k \in 1..Len(in) : IsEst(in[k]) THEN RSkip ELSE Expect(op, a, in, got)

---------------------------------------------------------------------------
(* Comparison *)
Permuted(t, keys) ==
  IF t.keys # keys /\ Distinct(keys) /\ Range(keys) = Range(t.keys) /\ Len(keys) = Len(t.keys)
  THEN [t EXCEPT !.keys = keys, !.v = BuildAs(t, LAMBDA i, c, o, d : t.v[Pos(t.keys, keys[i])][c][o][d])] ELSE t
RECURSIVE DiffAttr(_, _)
DiffAttr(x, g) ==
  IF x.k = "skip" THEN {}
  ELSE IF x.k = "trip" THEN (IF g.k # "tri" THEN {"kind"} ELSE DiffAttr(ATriT(Permuted(x.t, g.t.keys), x.free, x.tol), g))
  ELSE IF x.k # g.k THEN {"kind"}
  ELSE CASE x.k = "tri" -> (LET d == DiffTri(x.t, g.t) IN
                            (d \ (x.free \cup {"values"})) \cup
                            (IF "values" \in d /\ "values" \notin x.free /\ ~RMatchTol(x.t.v, g.t.v, x.tol) THEN {"values"} ELSE {}))
         [] x.k = "mat" -> (IF RMatchTol(x.v, g.v, x.tol) THEN {} ELSE {"values"})
         [] x.k = "num" -> (IF RMatchTol(x.x, g.x, x.tol) THEN {} ELSE {"values"})
         [] OTHER -> {}
DiffAt(exp, at) == UNION {IF n \notin DOMAIN at THEN {n \o ":absent"} ELSE {n \o ":" \o z : z \in DiffAttr(exp[n], at[n])} : n \in DOMAIN exp}
ResDiffE(x, e, g) ==
  IF x.k = "skip" THEN {}
  ELSE IF x.k = "est-new" THEN (IF g.k # "est" THEN {"result-kind:est/" \o g.k}
                             ELSE (IF DOMAIN g.e.at = {} THEN {} ELSE {"fitted-before-fit"}) \cup (IF x.hp # "" /\ g.e.hp # x.hp THEN {"parameters-changed"} ELSE {}))
  ELSE IF x.k = "est-set" THEN (IF g.k # "est" THEN {"result-kind:est/" \o g.k} ELSE DiffAt([n \in DOMAIN x.at |-> ATSame(x.at[n])], g.e.at))
  ELSE IF x.k = "est" THEN
       (IF g.k # "est" THEN {"result-kind:est/" \o g.k}
        ELSE DiffAt(x.at, g.e.at) \cup (IF g.e.hp # e.hp THEN {"parameters-changed"} ELSE {}))
  ELSE IF x.k = "tri" /\ "at" \in DOMAIN x /\ g.k = "tri" THEN ResDiff(x, g) \cup DiffAt(x.at, g.t.at)
  ELSE ResDiff(x, g)
=============================================================================
