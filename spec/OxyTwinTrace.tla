---------------------------- MODULE OxyTwinTrace ----------------------------
(***************************************************************************)
(* Recorded runs of writing programs with the digests of the files they     *)
(* leave.  The program of a file is what was written to it, in order, with  *)
(* all values; the digest of a closed file has to be a function of its path *)
(* and its program.  What was seen is kept from scenario to scenario.       *)
(***************************************************************************)
EXTENDS OxyTreeTrace
VARIABLES prog,    \* writer handle -> what was written to it
          made,    \* path -> program of the closed file
          seen     \* <<path, program>> -> <<length, digest>>
wvars == <<tvars, prog, made, seen>>
WInit == TraceInit /\ prog = Empty /\ made = Empty /\ seen = Empty
Rest == UNCHANGED <<prog, made, seen>>
WReset == Reset /\ prog' = Empty /\ made' = Empty /\ UNCHANGED seen
WCreate == TCreate /\ prog' = Put(prog, e.f, <<>>) /\ made' = Del(made, e.path) /\ UNCHANGED seen
What(t) == [name |-> wt[t].name, cols |-> [j \in 1..Len(wt[t].cols) |-> [name |-> wt[t].cols[j].name, ty |-> wt[t].cols[j].ty, data |-> wt[t].cols[j].data]]]
WWrite == (TWriteOk \/ TWriteRefused) /\ prog' = (IF e.f \in DOMAIN prog THEN [prog EXCEPT ![e.f] = Append(@, <<e.res, What(e.t)>>)] ELSE prog) /\ UNCHANGED <<made, seen>>
(* a provider that stopped the write: the file may go on, it is another program *)
WPanic == Is("WriteEnd") /\ e.res = "panic" /\ e.t \in DOMAIN wt /\ wt' = [wt EXCEPT ![e.t].ph = "dead"]
          /\ prog' = [prog EXCEPT ![e.f] = Append(@, <<e.res, What(e.t)>>)] /\ UNCHANGED <<disk, wf, rf, rt, it, made, seen>>
WClose == TClose /\ made' = Put(made, wf[e.f].path, prog[e.f]) /\ UNCHANGED <<prog, seen>>
(* the files are not moved or removed by anybody *)
WHash == /\ Is("Hash") /\ e.path \in DOMAIN made
         /\ LET k == <<e.path, made[e.path]>>  v == <<e.len, e.tok>> IN
            IF k \in DOMAIN seen THEN seen[k] = v /\ UNCHANGED seen ELSE seen' = Put(seen, k, v)
         /\ UNCHANGED <<vars, prog, made>>
WNext == WReset \/ WCreate \/ WWrite \/ WPanic \/ WClose \/ WHash
         \/ (TraceNext /\ ~(l <= Len(Trace) /\ Trace[l].ev \in {"Scenario", "Create", "WriteEnd", "Close", "Hash"}) /\ Rest)
WSpec == WInit /\ [][WNext]_wvars
=============================================================================
