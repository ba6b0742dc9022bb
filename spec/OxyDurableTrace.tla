-------------------------- MODULE OxyDurableTrace --------------------------
(***************************************************************************)
(* Recorded executions with faults: the process ends (Aborted 137), the    *)
(* operating system refuses or shortens writes (Arm ... SysLog), a closed  *)
(* file is cut (Truncate), damaged files are opened.  Everything OxyTree   *)
(* says about undamaged files keeps holding.                               *)
(***************************************************************************)
EXTENDS OxyTreeTrace

VARIABLES
    torn,   \* path -> [kind, keys]: what a file that was interrupted or cut may still show
    armed,  \* writes may be refused by the operating system
    rep     \* some call of the program has reported an error
xvars == <<tvars, torn, armed, rep>>
Same == UNCHANGED <<torn, armed, rep>>

XInit == TraceInit /\ torn = Empty /\ armed = FALSE /\ rep = FALSE
XReset == Reset /\ torn' = Empty /\ armed' = FALSE /\ rep' = FALSE

(* the process ends: files it had not closed are interrupted ones *)
XCrash ==
    /\ Is("Aborted") /\ e.code = 137
    /\ LET open == {f \in DOMAIN wf : ~wf[f].closed}
           ps == {wf[f].path : f \in open} IN
       /\ torn' = [p \in DOMAIN torn \cup ps |->
                      IF p \in ps THEN [kind |-> "crash", keys |-> wf[CHOOSE f \in open : wf[f].path = p].keys] ELSE torn[p]]
       /\ disk' = [p \in DOMAIN disk \ ps |-> disk[p]]
    /\ wf' = Empty /\ wt' = Empty /\ rf' = Empty /\ rt' = Empty /\ it' = Empty
    /\ armed' = FALSE /\ rep' = FALSE

(* a handle is given up without closing the file: as if the process had ended there *)
XDropOpen ==
    /\ Is("Drop") /\ e.res = "ok" /\ e.f \in DOMAIN wf /\ ~wf[e.f].closed
    /\ torn' = Put(torn, wf[e.f].path, [kind |-> "crash", keys |-> wf[e.f].keys])
    /\ disk' = Del(disk, wf[e.f].path) /\ wf' = Del(wf, e.f)
    /\ UNCHANGED <<wt, rf, rt, it, armed, rep>>

(* a new process: reading programs follow in the same trace *)
XArm == Is("Arm") /\ armed' = TRUE /\ Stay /\ UNCHANGED <<torn, rep>>
(* an error or a stop is a report; what follows in that program is not judged *)
XReport ==
    /\ l <= Len(Trace) /\ armed /\ ~rep /\ l' = l + 1 /\ Stay
    /\ \/ e.ev \in {"Create", "WriteEnd", "Close"} /\ e.res \in {"err", "panic"}
       \/ e.ev = "Panic"
    /\ rep' = TRUE /\ UNCHANGED <<torn, armed>>
XAfterReport == /\ l <= Len(Trace) /\ rep /\ e.ev \notin {"Scenario", "SysLog"} /\ l' = l + 1 /\ Stay /\ Same
(* nothing may be reported unless a write was really refused *)
XSysLog == Is("SysLog") /\ (rep => e.failed > 0) /\ Stay /\ Same

(* a whole file loses its end *)
XCut ==
    /\ Is("Truncate") /\ e.res = "ok"
    /\ \/ e.path \in DOMAIN disk /\ disk[e.path].ok
          /\ torn' = Put(torn, e.path, [kind |-> "cut", keys |-> disk[e.path].keys])
          /\ disk' = Del(disk, e.path)
       \/ e.path \in DOMAIN torn /\ UNCHANGED <<torn, disk>>
    /\ UNCHANGED <<wf, wt, rf, rt, it, armed, rep>>
(* a file written by somebody else, with the content it is known to have *)
XForged ==
    /\ Is("File") /\ disk' = Put(disk, e.path, [ok |-> TRUE, keys |-> e.keys])
    /\ UNCHANGED <<wf, wt, rf, rt, it>> /\ Same

Torn(p) == p \in DOMAIN torn
XOpenRefused == Is("Open") /\ Torn(e.path) /\ e.res \in {"err", "panic"} /\ Stay /\ Same
(* interrupted: only trees that had been stored; cut: all of them *)
XOpenTorn ==
    /\ Is("Open") /\ Torn(e.path) /\ e.res = "ok"
    /\ \E S \in (IF torn[e.path].kind = "cut" THEN {1..Len(torn[e.path].keys)} ELSE SUBSET (1..Len(torn[e.path].keys))) :
          LET q == SetToSortSeq(S, <) IN
          rf' = Put(rf, e.f, [path |-> e.path, keys |-> [j \in 1..Len(q) |-> torn[e.path].keys[q[j]]]])
    /\ UNCHANGED <<disk, wf, wt, rt, it>> /\ Same
(* calls through a handle that was refused do nothing; on a damaged file a tree, a column or a value may be refused *)
XNoFile == /\ l <= Len(Trace) /\ e.ev \in {"Keys", "Get", "Close", "Drop"} /\ "res" \in DOMAIN e /\ e.res \in {"nofile", "ok"}
           /\ e.f \notin DOMAIN rf /\ e.f \notin DOMAIN wf /\ (e.ev # "Drop" => e.res = "nofile") /\ l' = l + 1 /\ Stay /\ Same
XNoTree == Is("Iter") /\ e.res = "nobranch" /\ e.rt \notin DOMAIN rt /\ Stay /\ Same
XGetTorn == Is("Get") /\ e.res \in {"err", "panic"} /\ e.f \in DOMAIN rf /\ Torn(rf[e.f].path) /\ Stay /\ Same
DamagedTree == torn # Empty
XIterTorn == Is("Iter") /\ e.res \in {"err", "panic"} /\ DamagedTree /\ Stay /\ Same
XNextTorn == Is("NextPanic") /\ DamagedTree /\ Stay /\ Same

XNext == \/ XReset
         \/ (~rep /\ TraceNext /\ ~Is("Scenario") /\ ~Is("SysLog") /\ Same)
         \/ XCrash \/ XDropOpen \/ XArm \/ XReport \/ XAfterReport \/ XSysLog \/ XCut \/ XForged
         \/ XOpenRefused \/ XOpenTorn \/ XNoFile \/ XNoTree \/ XGetTorn \/ XIterTorn \/ XNextTorn
XSpec == XInit /\ [][XNext]_xvars
=============================================================================
