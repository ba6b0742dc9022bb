----------------------------- MODULE OxyLayout -----------------------------
(***************************************************************************)
(* How a column's entries come to lie in baskets, and how they are read    *)
(* back.  The storing program appends entries to its current basket, may   *)
(* put the basket into the file at any moment (also empty), and in the end *)
(* leaves the last one inside the tree's own record or puts it into the    *)
(* file as well.  A column of parts stores every part on its own, each     *)
(* with its own cuts.  The reader goes through the baskets in order, the   *)
(* one in the tree record last, and through all parts in step.             *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS MaxEntries, MaxBaskets, NParts, Gen

Parts == 1..NParts
VARIABLES
    n,      \* entries given so far, the same for all parts once stored
    cuts,   \* part -> sizes of the baskets in the file
    cur,    \* part -> entries in the current basket
    emb,    \* part -> the last basket stays in the tree record
    ph,     \* fill, read, end
    at,     \* part -> [b, i]: basket being read (0: none yet), entries of it already read
    out     \* entries read: Seq of (part -> entry number)
lvars == <<n, cuts, cur, emb, ph, at, out>>

LInit ==
    /\ n = [p \in Parts |-> 0] /\ cuts = [p \in Parts |-> <<>>] /\ cur = [p \in Parts |-> 0]
    /\ emb = [p \in Parts |-> FALSE] /\ ph = "fill" /\ at = [p \in Parts |-> [b |-> 1, i |-> 0]] /\ out = <<>>

(* parts before p are finished: fewer orders of the same layout *)
Done(p) == \A q \in Parts : q < p => n[q] = n[1]
Turn(p) == ph = "fill" /\ Done(p) /\ \A q \in Parts : q > p => (n[q] = 0 /\ cuts[q] = <<>>)
Add(p) ==
    /\ Turn(p) /\ n[p] < MaxEntries /\ (p > 1 => n[p] < n[1])
    /\ n' = [n EXCEPT ![p] = @ + 1] /\ cur' = [cur EXCEPT ![p] = @ + 1]
    /\ UNCHANGED <<cuts, emb, ph, at, out>>
Put1(p) ==
    /\ Turn(p) /\ Len(cuts[p]) < MaxBaskets
    /\ cuts' = [cuts EXCEPT ![p] = Append(@, cur[p])] /\ cur' = [cur EXCEPT ![p] = 0]
    /\ UNCHANGED <<n, emb, ph, at, out>>
Say == ~Gen \/ PrintT("BEHAVIOUR " \o ToJson([n |-> n[1], parts |-> [p \in Parts |-> [cuts |-> cuts[p],
                                                emb |-> IF emb'[p] THEN cur[p] ELSE 0 - 1]]]))
Store1 ==
    /\ ph = "fill" /\ \A p \in Parts : n[p] = n[1]
    /\ \E keep \in [Parts -> BOOLEAN] :
          /\ \A p \in Parts : ~keep[p] => cur[p] = 0       \* what is not kept in the tree record has been put
          /\ emb' = keep
    /\ ph' = "read"
    /\ UNCHANGED <<n, cuts, cur, at, out>>
    /\ Say

Baskets(p) == IF emb[p] THEN Append(cuts[p], cur[p]) ELSE cuts[p]
First(p, b) == SumSeq([j \in 1..b - 1 |-> Baskets(p)[j]])
(* a part whose basket is used up goes on to the next one, over empty ones *)
Go(p) ==
    /\ ~Gen /\ ph = "read" /\ at[p].b <= Len(Baskets(p)) /\ at[p].i = Baskets(p)[at[p].b]
    /\ at' = [at EXCEPT ![p] = [b |-> @.b + 1, i |-> 0]]
    /\ UNCHANGED <<n, cuts, cur, emb, ph, out>>
Ready(p) == at[p].b <= Len(Baskets(p)) /\ at[p].i < Baskets(p)[at[p].b]
Read ==
    /\ ~Gen /\ ph = "read" /\ \A p \in Parts : Ready(p)
    /\ out' = Append(out, [p \in Parts |-> First(p, at[p].b) + at[p].i + 1])
    /\ at' = [p \in Parts |-> [at[p] EXCEPT !.i = @ + 1]]
    /\ UNCHANGED <<n, cuts, cur, emb, ph>>
Finish1 ==
    /\ ~Gen /\ ph = "read" /\ \A p \in Parts : at[p].b > Len(Baskets(p))
    /\ ph' = "end" /\ UNCHANGED <<n, cuts, cur, emb, at, out>>

Reading == (\E p \in Parts : Go(p)) \/ Read \/ Finish1
LNext == \/ \E p \in Parts : Add(p)
         \/ \E p \in Parts : Put1(p)
         \/ Store1
         \/ \E p \in Parts : Go(p)
         \/ Read
         \/ Finish1
LSpec == LInit /\ [][LNext]_lvars /\ WF_lvars(Reading)

(* entry k read is entry k of every part, and all of them come *)
InStep == \A k \in 1..Len(out) : \A p \in Parts : out[k][p] = k
AllRead == ph = "end" => Len(out) = n[1]
NotStuck == (ph = "read" /\ ~Gen) => (ENABLED Reading)
Ends == (ph = "read") ~> (ph = "end")
=============================================================================
