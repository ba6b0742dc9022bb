------------------------------ MODULE OxyRows ------------------------------
(***************************************************************************)
(* Writing structs row by row.  Every struct (the row itself and every     *)
(* part of it that is a struct) has a callback, run when an entry starts:  *)
(* it takes the value meant for the struct and hands its fields to the     *)
(* fields' channels.  Then the columns take from their channels.           *)
(* OuterFirst says in which order the callbacks were registered: a struct  *)
(* before its parts, or after them - the order that loses rows.            *)
(* Empty channel: 0.  A value is the number of the row it belongs to.      *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS MaxRows, OuterFirst, Gen
L == <<>>
RECURSIVE NLeaves(_)
NLeaves(S) == IF S = L THEN 1 ELSE SumSeq([j \in 1..Len(S) |-> NLeaves(S[j])])
Over(B) == {s \in UNION {[1..k -> B] : k \in 1..3} : SumSeq([j \in 1..Len(s) |-> NLeaves(s[j])]) <= 4}
S1 == Over({L})
S2 == Over({L} \cup S1)
S3 == Over({L} \cup {s \in S1 \cup S2 : NLeaves(s) <= 3})
RECURSIVE At(_, _)
At(S, p) == IF p = <<>> THEN S ELSE At(S[Head(p)], Tail(p))
(* paths of all structs / leaves, outer before inner and in order *)
RECURSIVE Structs(_, _), Leafs(_, _), Posts(_, _)
Kids(F(_, _), S, p) == FoldLeft(LAMBDA acc, j : acc \o F(S[j], Append(p, j)), <<>>, [j \in 1..Len(S) |-> j])
Structs(S, p) == IF S = L THEN <<>> ELSE <<p>> \o Kids(Structs, S, p)
Posts(S, p) == IF S = L THEN <<>> ELSE Kids(Posts, S, p) \o <<p>>
Leafs(S, p) == IF S = L THEN <<p>> ELSE Kids(Leafs, S, p)

VARIABLES shape, rows, src, ch, i, cols, got, ph
rvars == <<shape, rows, src, ch, i, cols, got, ph>>
Order == IF OuterFirst THEN Structs(shape, <<>>) ELSE Posts(shape, <<>>)
Cols == Leafs(shape, <<>>)
RInit ==
    /\ shape \in S3 /\ rows \in 0..MaxRows /\ src = 0 /\ i = 1 /\ got = FALSE /\ ph = "call"
    /\ ch = [p \in ToSet(Structs(shape, <<>>)) \cup ToSet(Leafs(shape, <<>>)) |-> 0]
    /\ cols = [j \in 1..Len(Leafs(shape, <<>>)) |-> <<>>]
Callback ==
    /\ ph = "call" /\ i <= Len(Order)
    /\ LET p == Order[i]
           v == IF p = <<>> THEN (IF src < rows THEN src + 1 ELSE 0) ELSE ch[p]
           kids == {Append(p, j) : j \in 1..Len(At(shape, p))} IN
       /\ src' = IF p = <<>> /\ v > 0 THEN v ELSE src
       /\ ch' = [q \in DOMAIN ch |-> IF q \in kids THEN v ELSE IF q = p THEN 0 ELSE ch[q]]
    /\ IF i = Len(Order) THEN i' = 1 /\ ph' = "poll" ELSE i' = i + 1 /\ UNCHANGED ph
    /\ UNCHANGED <<shape, rows, cols, got>>
Poll ==
    /\ ph = "poll" /\ i <= Len(Cols)
    /\ LET v == ch[Cols[i]] IN
       /\ cols' = IF v > 0 THEN [cols EXCEPT ![i] = Append(@, v)] ELSE cols
       /\ ch' = [ch EXCEPT ![Cols[i]] = 0]
       /\ LET g == got \/ v > 0 IN
          IF i < Len(Cols) THEN i' = i + 1 /\ got' = g /\ UNCHANGED ph
          ELSE i' = 1 /\ got' = FALSE /\ ph' = (IF g THEN "call" ELSE "end")
    /\ UNCHANGED <<shape, rows, src>>
Say == Gen /\ ph = "call" /\ rows = 0 /\ i = 1 /\ ph' = "said" /\ PrintT("BEHAVIOUR " \o ToJson([shape |-> shape])) /\ UNCHANGED <<shape, rows, src, ch, i, cols, got>>
RNext == (~Gen /\ (Callback \/ Poll)) \/ Say
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(Callback \/ Poll)
RowsExact == ph = "end" => \A j \in 1..Len(cols) : cols[j] = [r \in 1..rows |-> r]
InStep == \A j, q \in 1..Len(cols) : Len(cols[j]) - Len(cols[q]) \in {0 - 1, 0, 1}
Over1 == <>(ph = "end")
=============================================================================
