----------------------------- MODULE MCOxyTree -----------------------------
(* Small instance of OxyTree, explored exhaustively: one or two writers, trees with up to two columns, *)
(* up to two callbacks, one reader, two iterators.  The token of a value is its position in  *)
(* its column, so data survives iff it reads <<1, 2, ...>>.                                            *)
EXTENDS OxyTree
CONSTANTS MaxVals, MaxCols, MaxCbs, MaxKeys

Tys == {"A", "B"}
(* files are moved and removed between writes, and only in histories of one tree, to keep them few *)
Rest == \A t \in DOMAIN wt : wt[t].ph \notin {"build", "round", "flushed"} /\ wt[t].ent > 0 /\ wt[t].cbs = <<>> /\ Len(wt[t].cols) = 1
Next ==
    \/ \E f \in {"w1"}, p \in {"p1"} : p \notin DOMAIN disk /\ Create(f, p)
    \/ \E t \in {"t1", "t2"} : t \notin DOMAIN wt /\ (t = "t2" => "t1" \in DOMAIN wt /\ wt["t1"].ph \in {"done", "dead"})
           /\ Cardinality(DOMAIN wf) > 0
           /\ (NewTree(t, "n1", FALSE) \/ (t = "t2" /\ (NewTree(t, "n2", FALSE) \/ NewTree(t, "s/", TRUE))))
    \/ \E t \in DOMAIN wt, n \in 0..MaxVals, ty \in Tys :
           Len(wt[t].cols) < MaxCols /\ (ty = "B" => wt[t].cols # <<>>)
           /\ NewBranch(t, IF wt[t].cols = <<>> THEN "c1" ELSE "c2", ty, n, 1)
    \/ \E t \in DOMAIN wt : Len(wt[t].cbs) < MaxCbs /\ t = "t1" /\ AddCallback(t, Len(wt[t].cbs) + 1)
    \/ \E t \in DOMAIN wt, f \in {"w1", "r1"} : f \in DOMAIN wf \cup DOMAIN rf /\ WriteStart(t, f)
    \/ \E t \in DOMAIN wt, id \in 1..MaxCbs : CbBefore(t, id) \/ \E n \in {"c1", "c2"} : CbBranch(t, id, n)
    \/ \E t \in DOMAIN wt, b \in 1..MaxCols : (t \in DOMAIN wt /\ b <= Len(wt[t].cols) /\ Poll(t, b, Len(wt[t].cols[b].data) + 1)) \/ PollEnd(t, b)
    \/ \E t \in DOMAIN wt, f \in {"w1", "r1"} : WriteOk(t, f) \/ WriteRefused(t, f)
    \/ \E f \in {"w1", "r1"} : Close(f)
    \/ \E f \in {"w1"} : f \in DOMAIN wf /\ wf[f].closed /\ Drop(f)
    \/ \E p \in {"p1", "p2"} : Open("r1", p)
    \/ Rest /\ Cardinality(DOMAIN wt) = 1 /\ MoveFile("p1", "p2")
    \/ Rest /\ Cardinality(DOMAIN it) = 1 /\ RemoveFile("p1")
    \/ \E n \in {"n1", "n1;1", "n2"} : "x" \notin DOMAIN rt /\ Get("r1", n, "x")
    \/ \E b \in 1..MaxCols, ty \in Tys, i \in {"i1", "i2"} : i \notin DOMAIN it /\ (i = "i2" => "i1" \in DOMAIN it) /\ Iter("x", b, ty, i)
    \/ \E i \in DOMAIN it, v \in 1..MaxVals : Next1(i, 1, v)

Spec == Init /\ [][Next]_vars

(* every value written is read back, in order, once: the token of the k-th value is k *)
RoundTrip ==
    /\ \A S \in AllStored : \A j \in 1..Len(S.cols) : \A x \in 1..Len(S.cols[j].data) : S.cols[j].data[x].tok = x
    /\ \A i \in DOMAIN it : \A x \in 1..Len(it[i].data) : it[i].data[x].tok = x
=============================================================================
