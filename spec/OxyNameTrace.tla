---------------------------- MODULE OxyNameTrace ----------------------------
(* Recorded uses of the real name builder: the name after every step is the model's. *)
EXTENDS OxyBuilder, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
States(st) == FoldLeft(LAMBDA acc, x : Append(acc, StepName(acc[Len(acc)], x[1], x[2])), <<NoName>>, st)
TBuild ==
    /\ l <= Len(Trace) /\ e.ev = "BName" /\ l' = l + 1
    /\ LET ss == States(e.steps) IN
       /\ Len(e.out) = Len(e.steps)
       /\ \A j \in 1..Len(e.out) : e.out[j] = Full(ss[j + 1])
    /\ UNCHANGED bvars
TSkip == l <= Len(Trace) /\ e.ev \in {"Scenario", "End"} /\ l' = l + 1 /\ UNCHANGED bvars
TInit == l = 1 /\ BInit
TSpec == TInit /\ [][TBuild \/ TSkip]_<<bvars, l>>
TraceAccepted ==
    /\ PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
    /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
