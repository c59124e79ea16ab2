------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every recorded session of the real library must be a  *)
(* behaviour of Session.  One initial state per recorded behaviour, one    *)
(* step per recorded call.  The verdict is total: the violated clauses are *)
(* named, the behaviour is abandoned, and the other behaviours go on.      *)
(***************************************************************************)
EXTENDS Flow, Json, IOUtils

Beh == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES b, l, heap, ok
vars == <<b, l, heap, ok>>

WellFormed(g) ==
  /\ Len(g.v) = Len(g.keys)
  /\ \A i \in 1..Len(g.v) : Len(g.v[i]) = Len(g.cols)
     /\ \A c \in 1..Len(g.v[i]) : Len(g.v[i][c]) = Len(g.org)
        /\ \A o \in 1..Len(g.v[i][c]) : Len(g.v[i][c][o]) = Len(g.dev)
GotOk(g) == IF g.k = "tri" THEN WellFormed(g.t) ELSE TRUE
Max0(n) == IF n > 0 THEN n ELSE 0

\* clauses violated by event e in the current heap
Verdict(e) ==
  LET in  == [k \in 1..Len(e["in"]) |-> heap[e["in"][k]]]
      first == IF Len(in) > 0 THEN in[1] ELSE <<>>
      x   == TLCEval(ExpectF(e.op, e.a, in, e.got))
      rd  == ResDiffF(x, first, e.got)
      \* a call left open that may update its receiver
      open == \/ x.k = "err" /\ e.op = "fit"
              \/ e.op = "pfit_transform"
              \/ x.k = "skip" /\ (e.op \in {"fit", "fit_transform", "fit_predict", "pfit", "gfit"} \/ ("inplace" \in DOMAIN e.a /\ e.a.inplace))
      self == IF x.mut = "self" \/ open THEN e["in"][1] ELSE ""
      chg == {e.chg[k].s : k \in 1..Len(e.chg)}
      \* what the receiver became, against what it must have become
      rdiff(g) == IF IsEst(g) THEN (IF x.k = "est-set" THEN {} ELSE IF x.k = "grid-rows" THEN {} ELSE IF x.k = "est" THEN DiffAt(x.at, g.at) \cup (IF g.hp # first.hp THEN {"parameters-changed"} ELSE {}) ELSE {"not-a-triangle"})
                  ELSE IF x.k = "est" THEN {"not-an-estimator"} ELSE DiffTri(x.t, g) \ x.free
      cd  == {"changed-other-object" : s \in chg \ {self}}
             \cup UNION {IF e.chg[k].s = self /\ ~open /\ (IsEst(e.chg[k].t) \/ WellFormed(e.chg[k].t))
                         THEN {"in-place-" \o z : z \in rdiff(e.chg[k].t)} ELSE {} : k \in 1..Len(e.chg)}
             \cup (IF self # "" /\ ~open /\ self \notin chg /\ rdiff(heap[self]) # {} THEN {"receiver-not-updated"} ELSE {})
  IN [bad |-> IF ~GotOk(e.got) THEN {"malformed-result"} ELSE rd \cup cd, k |-> x.k]

Adopt(e) ==
  LET h1 == IF e.out = "" THEN heap
            ELSE IF e.got.k = "tri" THEN (e.out :> e.got.t) @@ heap
            ELSE IF e.got.k = "est" THEN (e.out :> e.got.e) @@ heap ELSE heap
      RECURSIVE ap(_, _)
      ap(h, k) == IF k > Len(e.chg) THEN h ELSE ap((e.chg[k].s :> e.chg[k].t) @@ h, k + 1)
  IN ap(h1, 1)

Init == b \in 1..Len(Beh) /\ l = 0 /\ heap = <<>> /\ ok = TRUE
Step ==
  /\ ok /\ l < Len(Beh[b].ev)
  /\ LET e == Beh[b].ev[l+1]
         vd == TLCEval(Verdict(e))
         bad == vd.bad IN
     /\ IF vd.k = "skip" /\ e.op # "load" THEN PrintT("@@OPEN|" \o e.op) ELSE TRUE
     /\ l' = l + 1 /\ b' = b
     /\ ok' = (bad = {})
     /\ heap' = IF bad = {} THEN Adopt(e) ELSE heap
     /\ IF bad = {} THEN TRUE ELSE PrintT("@@BAD|" \o ToString(b) \o "|" \o ToString(l+1) \o "|" \o e.op \o "|" \o ToString(bad))
     /\ IF bad # {} /\ "EXPLAIN" \in DOMAIN IOEnv
        THEN PrintT("@@EXP|" \o ToString(b) \o "|" \o ToString(l+1) \o "|" \o ToJson(ExpectF(e.op, e.a, [k \in 1..Len(e["in"]) |-> heap[e["in"][k]]], e.got))) ELSE TRUE
     /\ IF bad = {} /\ l + 1 = Len(Beh[b].ev) THEN PrintT("@@END|" \o ToString(b) \o "|" \o ToString(l+1)) ELSE TRUE
Next == Step
View == <<b, l, ok>>
Spec == Init /\ [][Next]_vars
=============================================================================
