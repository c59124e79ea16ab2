------------------------------- MODULE Mack -------------------------------
(***************************************************************************)
(* Mack's standard errors of the chain-ladder projection.                  *)
(*   process risk   from sigma: the variance of the next amount given this *)
(*                  one is sigma^2 * amount^(2 - a), a = 0 for simple, 1   *)
(*                  for volume and 2 for regression averages (reversed as  *)
(*                  the library numbers them)                              *)
(*   parameter risk from the standard error of the factor                  *)
(* Both grow age by age: risk'^2 = (amount * err)^2 + (factor * risk)^2,   *)
(* and are zero where the amount is known.                                 *)
(***************************************************************************)
EXTENDS Method

Sq(a) == RMul(a, a)
PAt(S, x, i, c, d) == LET s == S.v[PRow(S, x.keys[i], x.klab)][PCol(S, x.cols[c])][1][d] IN IF RIsNan(s) THEN "0" ELSE s
\* cumulative amounts at the ages of x, projected where unknown
FullOn(x, L, U) == LET F == TLCEval(CompleteTri(x, L, U)) IN [x EXCEPT !.v = BuildAs(x, LAMBDA i, c, o, d : F.v[i][c][o][Pos(F.dev, x.dev[d])])]
AvgAt(avg, d) == IF Len(avg) = 1 THEN avg[1] ELSE IF d > Len(avg) THEN avg[Len(avg)] ELSE avg[d]
\* standard error of the next individual factor
StepErr(F, S, avg, x, i, c, o, d) ==
  LET a == AvgAt(avg, d) m == F.v[i][c][o][d] s == PAt(S, x, i, c, d) IN
  CASE a = "simple" -> s
    [] a = "volume" -> IF RLe(m, "0") THEN "0" ELSE RDiv(s, RSqrt(m))
    [] OTHER -> IF RIsZero(m) THEN "0" ELSE RDiv(s, RAbs(m))
Known(x, o, d) == d <= ND(x) /\ Valn(x, o, d) <= x.vd
StepFactor(x, L, i, c, d) == IF d < ND(x) THEN Ldf(L, x, i, c, 1, d) ELSE Cdf(L, x, i, c, 1, d)
RECURSIVE Risk2(_, _, _, _)
\* T(d): squared new error of step d; G(d): factor; M(d): is the amount at d unknown
Risk2(T(_), G(_), M(_), d) == IF d = 1 THEN "0" ELSE IF ~M(d) THEN "0" ELSE RTrim(RAdd(T(d-1), RMul(Sq(G(d-1)), Risk2(T, G, M, d-1))))
RiskTri(x, R(_,_,_,_)) ==
  LET w == [Core(x) EXCEPT !.dev = x.dev \o <<ULTA>>, !.vd = ULTV] IN [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d : R(i, c, o, d))]
Param2(x, L, F, E) == RiskTri(x, LAMBDA i, c, o, d :
  Risk2(LAMBDA k : Sq(RMul(F.v[i][c][o][k], PAt(E, x, i, c, k))), LAMBDA k : StepFactor(x, L, i, c, k), LAMBDA k : ~Known(x, o, k), d))
Process2(x, L, F, S, avg) == RiskTri(x, LAMBDA i, c, o, d :
  Risk2(LAMBDA k : Sq(RMul(F.v[i][c][o][k], StepErr(F, S, avg, x, i, c, o, k))), LAMBDA k : StepFactor(x, L, i, c, k), LAMBDA k : ~Known(x, o, k), d))
\* the factor is common to all origins: their parameter errors add up before squaring
TotParam2(x, L, F, E) ==
  LET w == [Core(x) EXCEPT !.dev = x.dev \o <<ULTA>>, !.vd = ULTV, !.org = <<x.org[1]>>]
      open(i, c, k) == RSum([o \in 1..NO(x) |-> IF Valn(x, o, k) >= x.vd THEN F.v[i][c][o][k] ELSE "0"])
  IN [w EXCEPT !.v = BuildAs(w, LAMBDA i, c, o, d :
        Risk2(LAMBDA k : Sq(RMul(open(i, c, k), PAt(E, x, i, c, k))), LAMBDA k : StepFactor(x, L, i, c, k), LAMBDA k : TRUE, d))]
MackAt(x, L, S, E, avg, U) ==
  LET F == TLCEval(FullOn(x, L, U))
      P == TLCEval(Param2(x, L, F, E)) Q == TLCEval(Process2(x, L, F, S, avg)) TP == TLCEval(TotParam2(x, L, F, E))
      root(t) == [t EXCEPT !.v = BuildAs(t, LAMBDA i, c, o, d : RSqrt(t.v[i][c][o][d]))]
      TQ == [TP EXCEPT !.v = BuildAs(TP, LAMBDA i, c, o, d : RSum([k \in 1..NO(x) |-> Q.v[i][c][k][d]]))]
      PQ == [P EXCEPT !.v = BuildAs(P, LAMBDA i, c, o, d : RAdd(P.v[i][c][o][d], Q.v[i][c][o][d]))]
      K == ND(x) + 1
      tri(t) == ATriF(t, {}, "1e-6")
  IN [parameter_risk_ |-> tri(root(P)), process_risk_ |-> tri(root(Q)), mack_std_err_ |-> tri(root(PQ)),
      total_parameter_risk_ |-> ATriF(root(TP), {"origin", "valuation-date", "cumulative", "axis-kind"}, "1e-6"), total_process_risk_ |-> ATriF(root(TQ), {"origin", "valuation-date", "cumulative", "axis-kind"}, "1e-6"),
      total_mack_std_err_ |-> ATriF([TP EXCEPT !.dev = <<1>>, !.v = BuildAs([TP EXCEPT !.dev = <<1>>], LAMBDA i, c, o, d : RSqrt(RAdd(TP.v[i][c][1][K], TQ.v[i][c][1][K])))],
                                    {"origin", "valuation-date", "cumulative", "axis-kind"}, "1e-6"),
      full_std_err_ |-> ATriF([Core(x) EXCEPT !.vd = ULTV, !.v = BuildAs(x, LAMBDA i, c, o, d : IF Known(x, o, d) /\ Valn(x, o, d) < x.vd THEN "any" ELSE StepErr(F, S, avg, x, i, c, o, d))],
                              {}, "1e-6"),
      summary_ |-> ATriF([Core(x) EXCEPT !.dev = <<1, 2, 3, 4>>, !.v = Build(NI(x), NC(x), NO(x), 4, LAMBDA i, c, o, d :
                      CASE d = 1 -> LatestAt(x, i, c, o) [] d = 2 -> RSub(U.v[i][c][o][1], LatestAt(x, i, c, o))
                        [] d = 3 -> U.v[i][c][o][1] [] OTHER -> RSqrt(PQ.v[i][c][o][K]))],
                      {"valuation-date", "axis-kind", "cumulative", "grain"}, "1e-6")]
=============================================================================
