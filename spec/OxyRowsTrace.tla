--------------------------- MODULE OxyRowsTrace ---------------------------
(***************************************************************************)
(* Recorded executions that write and read rows of structs: OxyTreeTrace   *)
(* with two more steps.  A row is the sequence of its plain fields.        *)
(***************************************************************************)
EXTENDS OxyTreeTrace, OxyNames

(* the columns of a struct, filled with the rows *)
Cells(cs, rows) == [j \in 1..Len(cs) |-> [name |-> cs[j].name, ty |-> cs[j].ty, left |-> 0, done |-> FALSE, blk |-> 2,
                                          data |-> [r \in 1..Len(rows) |-> [n |-> 1, tok |-> rows[r][j]]]]]
TRowsWrite ==
    /\ Is("RowsWrite") /\ e.res = "ok" /\ e.t \in DOMAIN wt /\ wt[e.t].ph = "build"
    /\ LET cs == Columns("", e.d) IN
       /\ \A r \in 1..Len(e.rows) : Len(e.rows[r]) = Len(cs)
       /\ wt' = [wt EXCEPT ![e.t].cols = @ \o Cells(cs, e.rows)]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

(* the first column of a name, 0: none *)
Named(S, n) == LET idx == {j \in 1..Len(S.cols) : S.cols[j].name = n} IN IF idx = {} THEN 0 ELSE MinOf(idx)
HasAll(S, cs) == \A j \in 1..Len(cs) : LET b == Named(S, cs[j].name) IN b > 0 /\ Readable(S.cols[b].ty, cs[j].ty)
(* as many rows as the shortest column has, the fields of each from their columns *)
RowsOf(S, cs, max) ==
    LET ds == [j \in 1..Len(cs) |-> S.cols[Named(S, cs[j].name)].data]
        n == MinOf({Len(ds[j]) : j \in 1..Len(cs)} \cup {max}) IN
    [r \in 1..n |-> [j \in 1..Len(cs) |-> ds[j][r].tok]]
TRowsRead ==
    /\ Is("RowsRead") /\ e.rt \in DOMAIN rt
    /\ LET cs == Columns("", e.d)
           S == rt[e.rt] IN
       IF HasAll(S, cs) THEN e.res = "ok" /\ e.rows = RowsOf(S, cs, Field("max", 1000000))
       ELSE e.res = "err"
    /\ Stay

(* a file of known content made by somebody else *)
TFile ==
    /\ Is("File")
    /\ disk' = Put(disk, e.path, [ok |-> TRUE, keys |-> e.keys])
    /\ UNCHANGED <<wf, wt, rf, rt, it>>

RTraceNext == TraceNext /\ UNCHANGED shape
RNext2 == \/ RTraceNext
          \/ ((TRowsWrite \/ TRowsRead \/ TFile) /\ UNCHANGED shape)
RTraceSpec == (TraceInit /\ shape = 0) /\ [][RNext2]_<<tvars, shape>>
=============================================================================
