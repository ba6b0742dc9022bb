-------------------------- MODULE OxyForestTrace --------------------------
(***************************************************************************)
(* Recorded listings and look-ups of real trees against the order that     *)
(* OxyForest proves to be the only one: a column, then those below it.     *)
(* A tree of the File event carries its columns as a forest in that order: *)
(* name, number of the column above (0: none), entries, and the values of  *)
(* columns that have none below.                                           *)
(***************************************************************************)
EXTENDS OxyReadTrace
Nodes(S) == IF "forest" \in DOMAIN S THEN S.forest
            ELSE [j \in 1..Len(S.cols) |-> [name |-> S.cols[j].name, up |-> 0, entries |-> Len1(S.cols[j]), data |-> S.cols[j].data, ty |-> S.cols[j].ty]]
KidsOf(F, j) == SelectSeq([k \in 1..Len(F) |-> k], LAMBDA k : F[k].up = j)
RECURSIVE Under(_, _, _)
Under(F, k, j) == F[k].up = j \/ (F[k].up # 0 /\ Under(F, F[k].up, j))
BelowOf(F, j) == IF j = 0 THEN [k \in 1..Len(F) |-> k] ELSE SelectSeq([k \in 1..Len(F) |-> k], LAMBDA k : Under(F, k, j))
NamesIn(F, ks) == [x \in 1..Len(ks) |-> F[ks[x]].name]
RECURSIVE Walk(_, _, _)
Walk(F, j, path) == IF path = <<>> THEN j ELSE Walk(F, KidsOf(F, j)[Head(path) + 1], Tail(path))

Same(F, k, m) == m.name = F[k].name /\ m.entries = F[k].entries
FList == /\ Is("AllBranches") /\ e.res = "ok" /\ e.rt \in DOMAIN rt
         /\ LET F == Nodes(rt[e.rt]) IN
            /\ Len(e.branches) = Len(F)
            /\ \A k \in 1..Len(F) : Same(F, k, e.branches[k])
         /\ Stay /\ UNCHANGED bad
First(F, j, x) == LET S == SelectSeq(BelowOf(F, j), LAMBDA k : F[k].name = x) IN IF S = <<>> THEN 0 ELSE S[1]
FLook == /\ Is("Lookup") /\ e.res = "ok" /\ e.rt \in DOMAIN rt
         /\ LET F == Nodes(rt[e.rt])
                from == IF "from" \in DOMAIN e THEN Walk(F, 0, e.from) ELSE 0
                k == First(F, from, e.name)
            IN /\ e.hit = (k # 0)
               /\ e.hit => /\ Same(F, k, e.found.m)
                           /\ e.found.sub = NamesIn(F, KidsOf(F, k))
                           /\ e.found.subr = NamesIn(F, BelowOf(F, k))
         /\ Stay /\ UNCHANGED bad
ByName == Is("Iter") /\ "b" \in DOMAIN e /\ e.rt \in DOMAIN rt
FIter == /\ ByName /\ e.res = "ok"
         /\ LET F == Nodes(rt[e.rt])
                k == First(F, 0, e.b)
            IN /\ k # 0 /\ Readable(F[k].ty, e.ty) /\ it' = Put(it, e.it, [data |-> F[k].data, pos |-> 0])
         /\ UNCHANGED <<disk, wf, wt, rf, rt, bad>>
FMissing == ByName /\ e.res = "nobranch" /\ First(Nodes(rt[e.rt]), 0, e.b) = 0 /\ Stay /\ UNCHANGED bad
FNext == \/ (RNext /\ ~ByName) \/ FList \/ FLook \/ FIter \/ FMissing
FSpec == RInit /\ [][FNext]_rvars
=============================================================================
