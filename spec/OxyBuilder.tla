----------------------------- MODULE OxyBuilder -----------------------------
(***************************************************************************)
(* The builder of column names: what a name is after any sequence of its   *)
(* steps.  up is the full name of what encloses it (ups = TRUE if there is *)
(* one), then come its prefix and its name.                                *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS Texts, MaxSteps
VARIABLES nm, steps
bvars == <<nm, steps>>
NoName == [ups |-> FALSE, up |-> "", pre |-> "", has |-> FALSE, name |-> ""]
Full(n) == (IF n.ups THEN n.up \o "." ELSE "") \o n.pre \o n.name
StepName(n, k, v) ==
    CASE k = "prefix" -> [n EXCEPT !.pre = v]
      [] k = "name"   -> [n EXCEPT !.name = v, !.has = TRUE]
      [] k = "child"  -> IF n.has THEN [ups |-> TRUE, up |-> Full(n), pre |-> "", has |-> TRUE, name |-> v]
                         ELSE [NoName EXCEPT !.name = v, !.has = TRUE]
      [] k = "abs"    -> [NoName EXCEPT !.name = v, !.has = TRUE]
      [] k = "default" -> NoName
Kinds == {"prefix", "name", "child", "abs"}
BInit == nm = NoName /\ steps = <<>>
BStep(k, v) ==
    /\ Len(steps) < MaxSteps
    /\ nm' = StepName(nm, k, v) /\ steps' = Append(steps, <<k, v>>)
BNext == \E k \in Kinds, v \in Texts : BStep(k, v)
BSpec == BInit /\ [][BNext]_bvars
Say == PrintT("BEHAVIOUR " \o ToJson([steps |-> steps]))
(* an absolute name stands alone *)
AbsAlone == (steps # <<>> /\ steps[Len(steps)][1] = "abs") => Full(nm) = steps[Len(steps)][2]
(* a child of something with a name is inside it; its own name comes last *)
Inside == [][\A v \in Texts : (steps' = Append(steps, <<"child", v>>) /\ nm.has) => Full(nm') = Full(nm) \o "." \o v]_bvars
=============================================================================
