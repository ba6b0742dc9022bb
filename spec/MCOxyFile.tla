----------------------------- MODULE MCOxyFile -----------------------------
(* All small files: up to MaxTrees trees of up to two columns with up to MaxBk baskets in all, record lengths *)
(* 2..MaxLen, names repeated or not, refused trees in between.                                               *)
EXTENDS OxyFile
CONSTANTS MaxTrees, MaxBk, MaxLen

Lens == 2..MaxLen
R(nb) == [at |-> end, nb |-> nb, kl |-> 1, ol |-> nb - 1]
Names == {"a", "b"}
(* columns: the pending baskets dealt to one or two columns in every way *)
Bk(name) == {j \in 1..Len(pend) : pend[j].tree = name}
Col(S) ==
    LET q == SetToSortSeq(S, <) IN
    [nbk |-> Len(q), entries |-> SumSeq([j \in 1..Len(q) |-> pend[q[j]].nev]),
     seek |-> [j \in 1..Len(q) + 1 |-> IF j <= Len(q) THEN pend[q[j]].at ELSE 0],
     bytes |-> [j \in 1..Len(q) + 1 |-> IF j <= Len(q) THEN pend[q[j]].nb ELSE 0],
     first |-> [j \in 1..Len(q) + 1 |-> SumSeq([k \in 1..j - 1 |-> pend[q[k]].nev])],
     total |-> SumSeq([j \in 1..Len(q) |-> pend[q[j]].nb])]
K(t) == [name |-> t.name, cycle |-> t.cycle, at |-> t.at, nb |-> t.nb, kl |-> t.kl, ol |-> t.ol]
Count == Len(recs) - Len(trees)

FNext ==
    \/ MakeFile(R(2))
    \/ \E nb \in Lens, nev \in 0..1, n \in Names : (\A j \in 1..Len(pend) : pend[j].tree = n) /\ Count <= MaxBk /\ PutBasket(R(nb), n, nev)
    \/ \E nb \in Lens, n \in Names : Len(trees) < MaxTrees /\ \E S \in SUBSET Bk(n) :
            PutTree(R(nb), n, NextCycle(n), IF S = {} /\ Bk(n) = {} THEN <<>> ELSE <<Col(S), Col(Bk(n) \ S)>>)
    \/ \E n \in Names : Bk(n) # {} /\ RefuseTree(n)
    \/ \E nb \in Lens : SaveKeys(R(nb), [j \in 1..Len(trees) |-> K(trees[j])])
    \/ \E nb \in Lens : SaveInfo(R(nb))
    \/ \E nb \in Lens : SaveFree(R(nb), <<<<end + nb, 100000>>>>)
    \/ Finish(ptr, end)
FSpec == FInit /\ [][FNext]_fvars
=============================================================================
