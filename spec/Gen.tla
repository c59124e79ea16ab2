-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Exhaustive exploration of Session on small triangles.  The state is one *)
(* triangle (the result of the calls so far) and the base it came from;    *)
(* every enabled call with every argument of the menu is one transition.   *)
(* Every transition is printed as the shortest call sequence reaching it,  *)
(* so that it can be replayed on the implementation; the laws below are    *)
(* invariants of every reachable state.                                    *)
(* GenIn (ndjson, written by the harness) holds the base triangles; the    *)
(* constants choose the menu and the depth.                                *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Base == ndJsonDeserialize(IOEnv.GEN_BASE)
Menu == Range(ndJsonDeserialize(IOEnv.GEN_MENU)[1])
Depth == ndJsonDeserialize(IOEnv.GEN_DEPTH)[1]

VARIABLES b, cur, hist
vars == <<b, cur, hist>>

NoHint(t) == [k |-> "tri", t |-> t]
\* arguments of each call, as functions of the current triangle
Vals(t) == {Valn(t, o, d) : o \in 1..NO(t), d \in 1..ND(t)} 
IxMenu(n) == {<<"all">>} \cup (IF n > 1 THEN {<<"int", 0>>, <<"int", -1>>, <<"slice", 1, NONE, NONE>>,
               <<"slice", NONE, -1, NONE>>, <<"slice", NONE, NONE, 2>>} ELSE {})
IxRev(n) == IF n > 1 THEN {<<"slice", NONE, NONE, -1>>, <<"list", <<n - 1, 0>>>>} ELSE {}
LabMenu(s) == IF Len(s) = 1 THEN {<<"one", s[1]>>}
              ELSE {<<"one", s[1]>>, <<"one", s[Len(s)]>>, <<"range", s[2], NONE>>, <<"range", NONE, s[Len(s)-1]>>, <<"range", s[1], s[2]>>}
All4 == <<"all">>
Ilocs(t) ==
  {[i |-> x, c |-> All4, o |-> All4, d |-> All4, form |-> 1] : x \in IxMenu(NI(t)) \cup IxRev(NI(t))}
  \cup {[i |-> All4, c |-> x, o |-> All4, d |-> All4, form |-> 2] : x \in IxMenu(NC(t)) \cup IxRev(NC(t))}
  \cup {[i |-> All4, c |-> All4, o |-> x, d |-> y, form |-> 5] : x \in IxMenu(NO(t)), y \in IxMenu(ND(t))}
Locs(t) ==
  {[i |-> <<"list", <<k>>>>, c |-> All4, o |-> All4, d |-> All4, form |-> 1] : k \in Range(t.keys)}
  \cup {[i |-> All4, c |-> x, o |-> All4, d |-> All4, form |-> 2] : x \in {<<"one", c>> : c \in Range(t.cols)}}
  \cup {[i |-> All4, c |-> All4, o |-> x, d |-> y, form |-> 5] : x \in LabMenu(t.org) \cup {All4}, y \in LabMenu(t.dev) \cup {All4}}
Args(op, t) ==
  CASE op \in {"incr_to_cum", "cum_to_incr"} -> {[inplace |-> x] : x \in BOOLEAN}
    [] op \in {"dev_to_val", "val_to_dev"} -> {[inplace |-> x] : x \in BOOLEAN}
    [] op \in {"latest_diagonal", "dropna", "sort_index"} -> {[x |-> 0]}
    [] op = "copy" -> {[how |-> "m"]}
    [] op = "set_backend" -> {[b |-> x, inplace |-> FALSE] : x \in {"numpy", "sparse"}}
    [] op = "iloc" -> Ilocs(t)
    [] op = "loc" -> (IF t.pat THEN {} ELSE Locs(t))
    [] op = "mask_origin" -> {[rel |-> r, m |-> m] : r \in {"<", "<=", ">", ">=", "=="}, m \in Range(t.org)}
    [] op = "mask_dev" -> {[rel |-> r, m |-> m] : r \in {"<", "<=", ">", ">=", "=="}, m \in Range(t.dev)}
    [] op = "mask_val" -> (IF ND(t) = 1 THEN {} ELSE {[rel |-> r, m |-> m] : r \in {"<", "<=", ">", ">=", "=="}, m \in Vals(t)})
    [] op = "mask_index" -> {[lab |-> t.klab[k], x |-> t.keys[i][k], rel |-> r] : k \in 1..Len(t.klab), i \in 1..NI(t), r \in {"==", "!="}}
    [] op = "col" -> {[cols |-> <<c>>, scalar |-> x] : c \in Range(t.cols), x \in BOOLEAN}
    [] op \in {"head", "tail"} -> {[n |-> 1], [n |-> 2]}
    [] op = "agg" -> {[fn |-> f, ax |-> x, spell |-> y] : f \in {"sum", "mean", "max", "min"}, x \in 0..3, y \in 0..2}
    [] op = "agg_default" -> {[fn |-> f] : f \in {"sum", "mean"}}
    [] op = "groupby" -> {[lab |-> <<x>>, fn |-> f, scalar |-> y] : x \in Range(t.klab), f \in {"sum", "mean", "max", "min"}, y \in BOOLEAN}
                         \cup {[lab |-> t.klab, fn |-> "sum", scalar |-> FALSE]}
    [] op = "grain" -> {[og |-> x, dg |-> y, trailing |-> z, inplace |-> FALSE, cm |-> 12] : x \in {"Y", "S", "Q", "M"}, y \in {"Y", "S", "Q", "M"}, z \in BOOLEAN}
    [] op = "numop" -> {[o |-> x, x |-> "2"] : x \in {"+", "-", "*", "/", "r-", "r/"}}
    [] op = "unop" -> {[o |-> x] : x \in {"neg", "abs"}}
    [] op = "binop" -> {[o |-> x] : x \in {"+", "-", "*", "/"}}
    [] op = "rbinop" -> {[o |-> x] : x \in {"+", "-", "*", "/"}}
    [] op = "append" -> {[x |-> 0]}
    [] op = "concat" -> {[ax |-> x, spell |-> y] : x \in 0..3, y \in 0..1}
    [] OTHER -> {}
Possible(op, t) ==
  CASE op = "grain" -> t.cum # "N" /\ ~t.pat
    [] op \in {"binop", "rbinop"} -> t.val = Base[b].val \/ ND(t) = 1
    [] op = "val_to_dev" -> t.val
    [] OTHER -> TRUE
Operands(op, t) == CASE op \in {"binop", "concat", "append"} -> <<t, Base[b]>>
                     [] op = "rbinop" -> <<Base[b], t>>
                     [] OTHER -> <<t>>
RealOp(op) == IF op = "rbinop" THEN "binop" ELSE op
Slots(op) == CASE op \in {"binop", "concat", "append"} -> <<"cur", "base">>
               [] op = "rbinop" -> <<"base", "cur">>
               [] OTHER -> <<"cur">>
\* the specification needs a hint for the order of new rows: any order satisfying it
KeyUnion(s, u) == s.keys \o SelectSeq(u.keys, LAMBDA x : x \notin Range(s.keys))
Hint(op, a, t) ==
  CASE op \in {"binop", "rbinop"} -> NoHint([t EXCEPT !.keys = IF DiffLevels(t, Base[b]) THEN Finer(t, Base[b]).keys ELSE KeyUnion(t, Base[b])])
    [] op = "groupby" -> NoHint([t EXCEPT !.keys = Uniq([i \in 1..NI(t) |-> RowLabel(t, LevelPos(t, a.lab), i)])])
    [] OTHER -> NoHint(t)

Init == b \in 1..Len(Base) /\ cur = Base[b] /\ hist = <<>>
Do(op, a) ==
  LET x == Expect(RealOp(op), a, Operands(op, cur), Hint(op, a, cur))
      h == Append(hist, [op |-> RealOp(op), a |-> a, in |-> Slots(op)])
  IN /\ Len(hist) < Depth
     /\ x.k # "skip"
     /\ PrintT("@@T|" \o ToString(b) \o "|" \o ToJson(h))
     /\ b' = b
     /\ hist' = h
     /\ cur' = (IF x.k = "tri" /\ Len(hist) + 1 < Depth /\ "nan" \notin {x.t.v[i][c][o][d] : i \in 1..NI(x.t), c \in 1..NC(x.t), o \in 1..NO(x.t), d \in 1..ND(x.t)}
                 THEN x.t ELSE cur)
Next == \E op \in Menu : Possible(op, cur) /\ \E a \in Args(op, cur) : Do(op, a)
Spec == Init /\ [][Next]_vars
View == <<b, cur>>

---------------------------------------------------------------------------
(* Laws: invariants of every reachable triangle.  They are theorems of the *)
(* specification; since every recorded call of the library is checked      *)
(* against the specification, they are inherited by the library.           *)
Amt == ~cur.pat /\ cur.cum \in {"T", "F"}
Val4(t) == t.v
TypeOk ==
  /\ Len(cur.v) = NI(cur)
  /\ \A i \in 1..NI(cur) : Len(cur.v[i]) = NC(cur) /\ \A c \in 1..NC(cur) : Len(cur.v[i][c]) = NO(cur)
       /\ \A o \in 1..NO(cur) : Len(cur.v[i][c][o]) = ND(cur)
  /\ Distinct(cur.keys) /\ Distinct(cur.org) /\ Distinct(cur.dev)
\* accumulate and difference are mutually inverse on what is visible
LawCumIncr == Amt /\ MaskOk(cur) =>
  /\ RMatch(IncrToCum(CumToIncr(IncrToCum(cur))).v, IncrToCum(cur).v)
  /\ RMatch(CumToIncr(IncrToCum(CumToIncr(cur))).v, CumToIncr(cur).v)
\* relabelling by valuation and back is the identity on a regular triangle
LawDevVal == Regular(cur) /\ ~cur.val /\ MaskOk(cur) /\ ~Hidden1D(cur) =>
  LET r == ValToDev(DevToVal(cur), cur.dev) IN
  \A i \in 1..NI(cur), c \in 1..NC(cur), o \in 1..NO(cur), d \in 1..ND(cur) :
     RIsZero(cur.v[i][c][o][d]) \/ (Pos(r.dev, cur.dev[d]) # 0 /\ RMatch(r.v[i][c][o][Pos(r.dev, cur.dev[d])], cur.v[i][c][o][d]))
\* a valuation mask and its complement partition the amounts
Tot(t) == RSum([i \in 1..NI(t) |-> RSum([c \in 1..NC(t) |-> RSum([o \in 1..NO(t) |-> RSum(t.v[i][c][o])])])])
LawPartition ==
  ND(cur) > 1 => \A m \in Vals(cur) :
    AnyValn(cur, "<", m) /\ AnyValn(cur, ">=", m) =>
      RMatch(RAdd(Tot(SelValn(cur, "<", m)), Tot(SelValn(cur, ">=", m))), Tot(cur))
\* aggregation by any axis preserves the grand total; so does any grouping
LawTotals ==
  /\ \A x \in 0..3 : RMatch(Tot(Agg(cur, "sum", x)), Tot(cur))
  /\ \A k \in 1..Len(cur.klab) :
       LET lp == LevelPos(cur, <<cur.klab[k]>>)
           g == GroupBy(cur, <<cur.klab[k]>>, Uniq([i \in 1..NI(cur) |-> RowLabel(cur, lp, i)]), "sum")
       IN RMatch(Tot(g), Tot(cur))
\* coarsening origins preserves the latest diagonal's total (of a triangle whose every origin
\* is developed up to the valuation date)
LawGrain ==
  Amt /\ (\A o \in 1..NO(cur) : \E d \in 1..ND(cur) : Valn(cur, o, d) = cur.vd) /\ Regular(cur) /\ ~cur.val /\ ~cur.pat /\ MaskOk(cur) /\ AnyValn(cur, "==", cur.vd) =>
    \A g \in {"Y", "S", "Q"} : GrainValid(cur, g, cur.dg) =>
      LET r == Grain(cur, g, cur.dg, 12, cur.dev) IN
      cur.cum = "T" => RMatch(Tot(LatestDiagonal(r)), Tot(LatestDiagonal(cur)))
\* addition of aligned triangles commutes up to order of rows; subtraction undoes it
LawArith ==
  MaskOk(cur) => RMatch(Arith("-", Arith("+", cur, cur, cur.keys), cur, cur.keys).v, cur.v)
=============================================================================
