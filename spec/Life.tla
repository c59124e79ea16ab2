-------------------------------- MODULE Life -------------------------------
(***************************************************************************)
(* The life cycle every estimator of the library shares, without its       *)
(* numbers.  Two estimators (the original "e" and its clone "c"), a few    *)
(* triangles, two parameter settings.  The state says what each estimator  *)
(* must be a function of: its parameters and the triangle of its last fit. *)
(* TLC enumerates every history of calls; each is replayed on the library  *)
(* with concrete classes, parameters and triangles, and every event of it  *)
(* is judged by Trace.tla, where the fitted state has to equal the         *)
(* specification's function of exactly (par, on).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cfg == ndJsonDeserialize(IOEnv.LIFE)[1]    \* [x: names of triangles, w: weight of each or "", depth, ops]
X == 1..Len(Cfg.x)
Ops == {Cfg.ops[k] : k \in 1..Len(Cfg.ops)}

VARIABLES on, par, last, hist
\* on[s]: 0 not fitted, else the triangle of the last fit; par[s]: 0 does not exist, else the
\* setting in force; last[s]: the setting of the last fit
vars == <<on, par, last, hist>>
S == {"e", "c"}
Init == on = [s \in S |-> 0] /\ par = [s \in S |-> IF s = "e" THEN 1 ELSE 0] /\ last = [s \in S |-> 0] /\ hist = <<>>
Ins(s, k) == IF Cfg.w[k] = "" THEN <<s, Cfg.x[k]>> ELSE <<s, Cfg.x[k], Cfg.w[k]>>
Log(op, in, out, n) == hist' = Append(hist, [op |-> op, in |-> in, out |-> out, n |-> n])
Fit(s, k) == /\ par[s] # 0 /\ Log("fit", Ins(s, k), "", 0)
             /\ on' = [on EXCEPT ![s] = k] /\ last' = [last EXCEPT ![s] = par[s]] /\ UNCHANGED par
Read(op, s, k) == /\ on[s] # 0 /\ UNCHANGED <<on, par, last>>
                  /\ Log(op, IF op = "predict" THEN Ins(s, k) ELSE <<s, Cfg.x[k]>>, "p" \o ToString(Len(hist)), 0)
Clone == /\ par["c"] = 0 /\ par' = [par EXCEPT !["c"] = par["e"]] /\ UNCHANGED <<on, last>>
         /\ Log("clone", <<"e">>, "c", 0)
Set(s, n) == /\ par[s] # 0 /\ par[s] # n /\ par' = [par EXCEPT ![s] = n] /\ UNCHANGED <<on, last>>
             /\ Log("set", <<s>>, "", n)
Next == /\ Len(hist) < Cfg.depth
        /\ \/ "fit" \in Ops /\ \E s \in S, k \in X : Fit(s, k)
           \/ \E op \in {"transform", "predict"} \cap Ops, s \in S, k \in X : Read(op, s, k)
           \/ "clone" \in Ops /\ Clone
           \/ "set" \in Ops /\ \E s \in S, n \in {1, 2} : Set(s, n)
        /\ IF Len(hist') = Cfg.depth THEN PrintT("@@T|" \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
\* a clone is never fitted by its creation, and reading changes nothing
Sound == \A s \in S : /\ (par[s] = 0 => on[s] = 0)
                      /\ (on[s] = 0 <=> last[s] = 0)
ReadOnly == [][(\E k \in 1..1 : Len(hist') > 0 /\ hist'[Len(hist')].op \in {"transform", "predict"}) => UNCHANGED <<on, par, last>>]_vars
=============================================================================
