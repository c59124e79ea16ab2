-------------------------------- MODULE Flow -------------------------------
(***************************************************************************)
(* Composite estimators: a Pipeline is its steps done by hand, a           *)
(* GridSearch is every combination fitted by hand, and a VotingChainladder *)
(* is the weighted average of its members, origin by origin.               *)
(***************************************************************************)
EXTENDS Adj

ATLike(a) == IF a.k = "tri" THEN ATriF(Core(a.t), {}, "1e-8") ELSE IF a.k = "mat" THEN AMat(a.v, "1e-8") ELSE AAny
Like(at) == [n \in DOMAIN at |-> ATLike(at[n])]
\* pfit etc.: the last operand is what the same steps gave when done by hand
LastOf(in) == in[Len(in)]
HandFit(in) == LET m == LastOf(in) IN IF DOMAIN m.at = {} THEN RSkip ELSE REst(Like(m.at))
HandTri(in) == LET y == LastOf(in) IN RTri(Core(y), [n \in DOMAIN y.at |-> ATLike(y.at[n])], {})

\* ---- grid search
RECURSIVE Combos(_)
Combos(g) == IF g = <<>> THEN {<<>>} ELSE {<<v>> \o w : v \in Range(g[1].v), w \in Combos(Tail(g))}
SumAll(t) == RSum([i \in 1..NI(t) |-> RSum([c \in 1..NC(t) |-> RSum([o \in 1..NO(t) |-> RSum(t.v[i][c][o])])])])
ScoreOf(m, s) == IF s = "ult" THEN SumAll(m.at.ultimate_.t) ELSE SumAll(m.at.ibnr_.t)
GridSearched(e, a, in, n) ==       \* hand-fitted estimators from operand n on, one per combination
  LET M == SubSeq(in, n, Len(in)) p == e.par IN
  IF \E k \in 1..Len(M) : ~({"ultimate_", "ibnr_"} \subseteq DOMAIN M[k].at) \/ M[k].at.ultimate_.k # "tri" \/ M[k].at.ibnr_.k # "tri" THEN RSkip
  ELSE [k |-> "grid-rows", names |-> [j \in 1..Len(p.grid) |-> p.grid[j].n], combos |-> Combos(p.grid),
        scores |-> p.score, rows |-> [k \in 1..Len(M) |-> [p |-> a.combos[k], s |-> [j \in 1..Len(p.score) |-> ScoreOf(M[k], p.score[j])]]],
        mut |-> "self", free |-> {}]
GridRowsDiff(x, g) ==
  IF g.k # "est" \/ "results_" \notin DOMAIN g.e.at THEN {"no-results"}
  ELSE LET R == g.e.at.results_.rows IN
       (IF Len(R) # Cardinality(x.combos) \/ {R[k].p : k \in 1..Len(R)} # x.combos THEN {"combinations"} ELSE {})
       \cup (IF \E k \in 1..Len(R), j \in 1..Len(x.rows) : R[k].p = x.rows[j].p /\ ~RMatchTol(R[k].s, x.rows[j].s, "1e-8") THEN {"scores"} ELSE {})

\* ---- voting
Kept(p) == Where(Len(p.members), LAMBDA k : p.members[k].cls # "drop")
\* the weight of member k for a cell: given by row, by column, by origin, or the default
VoteW(p, x, i, c, o, k) ==
  LET n == Len(p.members) def == IF p.def = <<>> THEN [j \in 1..n |-> "1"] ELSE p.def
      hit == {j \in 1..Len(p.w) : p.w[j].o = x.org[o]} IN
  CASE p.form = "none" -> def[k]
    [] p.form = "dict" -> (IF hit = {} THEN def[k] ELSE p.w[MinS(hit)].w[k])
    [] p.form = "origin" -> p.w[o][k]
    [] p.form = "column" -> p.w[c][o][k]
    [] OTHER -> p.w[i][c][o][k]
MemberUlt(m, x, L, w) ==
  CASE m.cls = "CapeCod" -> CapeUlt(x, L, w, m.par, CapeTabs(x, L, w, m.par))
    [] m.cls \in Bench -> MethodUlt(m, x, L, <<m, x, w>>)
    [] OTHER -> CLUlt(x, L)
VoteFit(e, in) ==
  LET p == e.par x == in[2] K == Kept(p) need == \E k \in Range(K) : p.members[k].cls # "Chainladder" IN
  IF need /\ Len(in) < 3 THEN RErr
  ELSE IF ~Regular2(x) THEN RSkip
  ELSE LET L == FullLdf(x, RawLdf(x)) IN
  IF ~MethodOk(x, L) \/ K = <<>> \/ x.cum # "T" \/ (need /\ ~WeightOk(in[3], x)) \/ (Len(in) > 2 /\ NC(in[3]) > NC(x)) THEN RSkip
  ELSE LET U == TLCEval([k \in 1..Len(K) |-> MemberUlt(p.members[K[k]], x, L, IF Len(in) > 2 THEN in[3] ELSE x)])
           wt(i, c, o) == [k \in 1..Len(K) |-> VoteW(p, x, i, c, o, K[k])]
           mix == UltTri(x, LAMBDA i, c, o :
             LET w == wt(i, c, o) tot == RSum(w) IN
             IF RIsZero(tot) \/ \E k \in 1..Len(K) : U[k].v[i][c][o][1] = "any" THEN "any"
             ELSE RTrim(RDiv(RSum([k \in 1..Len(K) |-> RMul(w[k], U[k].v[i][c][o][1])]), tot)))
       IN REst([ultimate_ |-> ATriP(mix, "1e-8"), ibnr_ |-> ATriP(IbnrTri(x, mix), "1e-7")])

ExpectF(op, a, in, got) ==
  CASE op = "pfit" -> HandFit(in)
    [] op \in {"ppredict", "ptransform"} -> HandTri(in)
    [] op = "pfit_transform" -> HandTri(in)
    [] op = "gfit" -> GridSearched(in[1], a, in, a.n)
    [] op = "fit" /\ in[1].cls = "VotingChainladder" -> VoteFit(in[1], in)
    [] op = "predict" /\ in[1].cls = "VotingChainladder" -> RSkip
    [] OTHER -> ExpectA(op, a, in, got)
ResDiffF(x, e, g) == IF x.k = "grid-rows" THEN GridRowsDiff(x, g) \cup (IF g.k = "est" /\ g.e.hp # e.hp THEN {"parameters-changed"} ELSE {})
                     ELSE ResDiffX(x, e, g)
=============================================================================
