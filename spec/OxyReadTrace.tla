---------------------------- MODULE OxyReadTrace ----------------------------
(***************************************************************************)
(* Recorded readings of files made by another program, whose content is    *)
(* known (File event).  The file is sound, or some columns or trees are     *)
(* marked unsound: then reading may give exact values from the start and   *)
(* must report or stop before it ends.                                     *)
(***************************************************************************)
EXTENDS OxyTreeTrace
VARIABLE bad    \* path -> {"tree names"} whose own record is damaged
rvars == <<tvars, bad>>
RInit == TraceInit /\ bad = Empty
RReset == Reset /\ bad' = Empty
RFile ==
    /\ Is("File") /\ disk' = Put(disk, e.path, [ok |-> TRUE, keys |-> e.keys])
    /\ bad' = Put(bad, e.path, {e.unsound[j] : j \in 1..Len(e.unsound)})
    /\ UNCHANGED <<wf, wt, rf, rt, it>>
BadTree(f, n) == f \in DOMAIN rf /\ rf[f].path \in DOMAIN bad /\ n \in bad[rf[f].path]
(* a column one of whose baskets is damaged has no value from there on: its content ends with a mark *)
Mark == "!DAMAGED"
Ends(d) == d # <<>> /\ d[Len(d)].tok = Mark
Damaged(S, k) == k >= 1 /\ k <= Len(S.cols) /\ Ends(S.cols[k].data)

(* a damaged tree record is refused; a damaged basket stops the reading of its column *)
RGetBad == Is("Get") /\ e.res \in {"err", "panic"} /\ BadTree(e.f, e.name) /\ Stay /\ UNCHANGED bad
(* an object of another kind (key with a field cls) is listed like any other, and never given out as a tree *)
NotTree(f, n) == f \in DOMAIN rf /\ \E j \in 1..Len(rf[f].keys) : rf[f].keys[j].name = n /\ "cls" \in DOMAIN rf[f].keys[j]
RGetOther == Is("Get") /\ e.res = "err" /\ NotTree(e.f, e.name) /\ Stay /\ UNCHANGED bad
RGet == (TGet \/ TGetRefused) /\ ~BadTree(e.f, e.name) /\ ~NotTree(e.f, e.name) /\ UNCHANGED bad
(* a damaged column can be refused when it is asked for *)
RIterBad == Is("Iter") /\ e.res \in {"err", "panic"} /\ e.rt \in DOMAIN rt /\ Damaged(rt[e.rt], ColOf(rt[e.rt])) /\ Stay /\ UNCHANGED bad
RStop == Is("NextPanic") /\ e.it \in DOMAIN it /\ Ends(it[e.it].data) /\ it' = Del(it, e.it) /\ UNCHANGED <<disk, wf, wt, rf, rt, bad>>
(* the mark is never given out as a value, and the end is never reached: Next1 and NextEnd see to that *)
NoMark == Is("Next") => e.tok # Mark
RNext == \/ RReset \/ RFile \/ RGet \/ RGetOther \/ RGetBad \/ RIterBad \/ RStop
         \/ (TraceNext /\ ~Is("Scenario") /\ ~Is("Get") /\ NoMark /\ UNCHANGED bad)
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
