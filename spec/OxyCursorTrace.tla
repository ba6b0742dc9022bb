-------------------------- MODULE OxyCursorTrace --------------------------
(* Recorded operations of the real cursor: every result is what OxyCursor gives. *)
EXTENDS OxyCursor, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cvars, l>>
e == Trace[l]
Is(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
TInit == l = 1 /\ buf = <<>> /\ off = 0 /\ c = 0 /\ hdr = 0 - 1 /\ alive = FALSE /\ hist = <<>> /\ last = [k |-> "start", v |-> <<>>, from |-> 0]
TNew == Is("CurNew") /\ buf' = e.buf /\ off' = e.off /\ c' = 0 /\ hdr' = 0 - 1 /\ alive' = TRUE /\ hist' = <<>> /\ last' = [k |-> "start", v |-> <<>>, from |-> 0]
TStep ==
    /\ Is("CurStep") /\ Step(e.k, e.a)
    /\ IF e.st = "ok" THEN /\ alive' /\ e.v = last'.v /\ e.pos = c' + off /\ e.len = Len(buf) - c'
                           /\ e.empty = (c' >= Len(buf))
       ELSE ~alive'
TSkip == l <= Len(Trace) /\ Trace[l].ev \in {"Scenario", "End", "Note"} /\ l' = l + 1 /\ UNCHANGED cvars
TNext == TNew \/ TStep \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
TInv == (alive => Inside) /\ Exactly
TraceAccepted ==
    /\ PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
    /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
