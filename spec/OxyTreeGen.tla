----------------------------- MODULE OxyTreeGen -----------------------------
(* Behaviours of OxyTree turned into programs for the driver: `hist` collects the public calls; the   *)
(* callbacks and polls in between are the library's own steps.  Run with -simulate.                    *)
EXTENDS OxyTree, Json, IOUtils
VARIABLE hist, fin
gvars == <<vars, hist, fin>>

Names == {"n1", "n2"}
(* asked for: generations there are and are not, and what is no generation at all *)
Queries == Names \cup {"n1;1", "n1;2", "n2;1", "n2;2", "n1;3", "n2;0", "n1;x", "n2;", ";1"}
ColNames == {"a", "b", "c"}
Tys == {"i32", "f64", "u8", "String", "Vec<i16>", "[u16;3]", "bool", "i64", "Vec<f32>"}
Counts == {0, 1, 2, 3, 5}
MaxLen == 44
Writers == {"w1", "w2"}
Readers == {"r1", "r2"}
PathOf == [w1 |-> "$D/a.root", w2 |-> "$D/b.root"]

Busy == \E t \in DOMAIN wt : wt[t].ph = "round"
H(r) == hist' = Append(hist, r) /\ UNCHANGED fin
Quiet == UNCHANGED <<hist, fin>>

Internal ==
    /\ Quiet
    /\ \/ \E t \in DOMAIN wt, id \in 1..2 : CbBefore(t, id) \/ \E n \in ColNames : CbBranch(t, id, n)
       \/ \E t \in DOMAIN wt, b \in 1..3 :
             \/ (b <= Len(wt[t].cols) /\ Poll(t, b, Len(wt[t].cols[b].data) + 1))
             \/ PollEnd(t, b)
       \/ \E t \in DOMAIN wt : wt[t].ph = "round" /\ WriteRefused(t, wt[t].f)

Finishing ==
    /\ \E t \in DOMAIN wt : wt[t].ph = "flushed"
    /\ Quiet
    /\ \E t \in DOMAIN wt : wt[t].ph = "flushed" /\ (WriteOk(t, wt[t].f) \/ WriteRefused(t, wt[t].f))

External ==
    \/ \E f \in Writers : PathOf[f] \notin DOMAIN disk /\ Create(f, PathOf[f]) /\ H([op |-> "create", f |-> f, path |-> PathOf[f]])
    \/ \E n \in {RandomElement(Names), RandomElement(Names \cup {"s/x", "n1;1"})} : LET t == "t" \o ToString(Cardinality(DOMAIN wt)) IN
          /\ Cardinality({u \in DOMAIN wt : wt[u].ph = "build"}) < 2
          /\ NewTree(t, n, n = "s/x")
          /\ H([op |-> "tree", t |-> t, name |-> n, tag |-> [bad |-> n = "s/x"]])
    \/ \E t \in DOMAIN wt, n \in ColNames, ty \in {RandomElement(Tys)}, k \in {RandomElement(Counts)} :
          /\ wt[t].ph = "build" /\ Len(wt[t].cols) < 3
          /\ n = <<"a", "b", "c">>[Len(wt[t].cols) + 1]
          /\ Len(wt[t].cols) < 3 /\ (\A j \in 1..Len(wt[t].cols) : wt[t].cols[j].name # n)
          /\ NewBranch(t, n, ty, k, 1)
          /\ H([op |-> "branch", t |-> t, name |-> n, ty |-> ty, n |-> k])
    \/ \E t \in DOMAIN wt : Len(wt[t].cbs) < 2 /\ RandomElement(1..3) = 1 /\ AddCallback(t, Len(wt[t].cbs) + 1) /\ H([op |-> "cb", t |-> t, id |-> Len(wt[t].cbs) + 1])
    \/ \E t \in DOMAIN wt, f \in DOMAIN wf \cup DOMAIN rf :
          /\ (f \in DOMAIN rf \/ (f \in DOMAIN wf /\ wf[f].closed)) => RandomElement(1..6) = 1
          /\ (f \in DOMAIN wf => ~wf[f].closed)
          /\ wt[t].ph = "build" /\ Cardinality({0} \cup {1 : j \in 1..Len(wt[t].cols)}) + RandomElement(1..4) > 2
          /\ WriteStart(t, f) /\ H([op |-> "write", t |-> t, f |-> f])
    \/ \E f \in DOMAIN wf : wf[f].keys # <<>> /\ Close(f) /\ H([op |-> "close", f |-> f])
    \/ \E f \in DOMAIN rf : RandomElement(1..8) = 1 /\ CloseRefused(f) /\ H([op |-> "close", f |-> f])
    \/ \E f \in DOMAIN wf \cup DOMAIN rf :
          /\ (f \in DOMAIN wf => wf[f].closed) /\ RandomElement(1..3) = 1
          /\ Drop(f) /\ H([op |-> "drop", f |-> f])
    \/ \E f \in Readers, p \in DOMAIN disk : (DOMAIN rf = {} \/ RandomElement(1..5) = 1) /\ Open(f, p) /\ H([op |-> "open", f |-> f, path |-> p])
    \/ \E p \in DOMAIN disk, q \in {"$D/a.root", "$D/b.root", "$D/c.root"} :
          /\ (DOMAIN rf # {} \/ DOMAIN rt # {}) /\ RandomElement(1..10) = 1 /\ ~Busy
          /\ MoveFile(p, q) /\ H([op |-> "rename", from |-> p, to |-> q])
    \/ \E p \in DOMAIN disk : DOMAIN it # {} /\ RandomElement(1..10) = 1 /\ ~Busy /\ RemoveFile(p) /\ H([op |-> "unlink", path |-> p])
    \/ OpenRefused("$D/none.root") /\ RandomElement(1..12) = 1 /\ H([op |-> "open", f |-> "r9", path |-> "$D/none.root"])
    \/ \E f \in DOMAIN rf : Keys(f, NamesOf(rf[f].keys)) /\ RandomElement(1..4) = 1 /\ H([op |-> "keys", f |-> f])
    \/ \E f \in DOMAIN rf, n \in Names \cup {RandomElement(Queries)}, r \in {"x1", "x2"} : r \notin DOMAIN rt /\ Get(f, n, r) /\ H([op |-> "get", f |-> f, name |-> n, rt |-> r])
    \/ \E f \in DOMAIN rf, n \in Queries : GetRefused(f, n) /\ RandomElement(1..6) = 1 /\ H([op |-> "get", f |-> f, name |-> n, rt |-> "x9"])
    \/ \E r \in DOMAIN rt, b \in 1..3, i \in {"i1", "i2", "i3"} :
          /\ b <= Len(rt[r].cols) /\ i \notin DOMAIN it /\ (i = "i2" => "i1" \in DOMAIN it) /\ (i = "i3" => "i2" \in DOMAIN it)
          /\ Iter(r, b, rt[r].cols[b].ty, i)
          /\ H([op |-> "iter", rt |-> r, b |-> rt[r].cols[b].name, ty |-> rt[r].cols[b].ty, it |-> i])
    \/ \E r \in DOMAIN rt, b \in 1..3, ty \in Tys :
          /\ b <= Len(rt[r].cols) /\ RandomElement(1..20) = 1
          /\ IterRefused(r, b, ty)
          /\ H([op |-> "iter", rt |-> r, b |-> rt[r].cols[b].name, ty |-> ty, it |-> "i9"])
    \/ \E i \in DOMAIN it, w \in 1..3 :   \* w: weight only
          /\ it[i].pos < Len(it[i].data)
          /\ Next1(i, 1, it[i].data[it[i].pos + 1].tok)
          /\ H([op |-> "next", it |-> i, n |-> 1])
    \/ \E i \in DOMAIN it : NextEnd(i) /\ RandomElement(1..3) = 1 /\ H([op |-> "next", it |-> i, n |-> 1])
    \/ \E i \in DOMAIN it : RandomElement(1..5) = 1 /\ DropIter(i) /\ H([op |-> "dropit", it |-> i])

Finish ==
    /\ ~Busy /\ Len(hist) >= MaxLen
    /\ PrintT("BEHAVIOUR " \o ToJson(hist))
    /\ fin' = TRUE /\ UNCHANGED <<vars, hist>>

GInit == Init /\ hist = <<>> /\ fin = FALSE
GNext ==
    /\ ~fin
    /\ IF Busy THEN Internal
       ELSE IF \E t \in DOMAIN wt : wt[t].ph = "flushed" THEN Finishing
       ELSE IF Len(hist) >= MaxLen THEN Finish
       ELSE External
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
