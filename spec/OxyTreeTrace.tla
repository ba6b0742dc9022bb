--------------------------- MODULE OxyTreeTrace ---------------------------
(***************************************************************************)
(* Is a recorded execution of the real library a behaviour of OxyTree?     *)
(* One recorded event = one action of OxyTree with its logged arguments.   *)
(* Scenario events start again from Init.                                  *)
(*                                                                         *)
(* FOCUS names the obligations of the property being checked beyond the    *)
(* common ones, so that a check does not speak about another property:     *)
(*   protocol   exact order of callbacks and polls                         *)
(*   counts     entry counts reported by trees and columns                 *)
(***************************************************************************)
EXTENDS OxyTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS      \* a string; see Wants
Wants(x) == Focus = "all" \/ Focus = x

VARIABLE l
tvars == <<vars, l>>

TraceInit == Init /\ l = 1

e == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
Field(k, d) == IF k \in DOMAIN e THEN e[k] ELSE d
Stay == UNCHANGED vars

Reset ==
    /\ Is("Scenario")
    /\ disk' = Empty /\ wf' = Empty /\ wt' = Empty /\ rf' = Empty /\ rt' = Empty /\ it' = Empty

Skip == /\ l <= Len(Trace) /\ Trace[l].ev \in {"End", "Note", "Hash", "SysLog", "CbAfter", "Forged"} /\ l' = l + 1 /\ Stay

TCreate == Is("Create") /\ e.res = "ok" /\ Create(e.f, e.path)
TCreateRefused == Is("Create") /\ e.res = "err" /\ Field("cannot", FALSE) /\ Stay
TNewTree == Is("NewTree") /\ NewTree(e.t, e.name, Field("bad", FALSE))
TNewBranch == Is("NewBranch") /\ e.res = "ok" /\ NewBranch(e.t, e.name, e.ty, e.n, e.blk)
TAddCallback == Is("AddCallback") /\ AddCallback(e.t, e.id)
TWriteStart == Is("WriteStart") /\ WriteStart(e.t, e.f)

(* -- polls and callbacks, in the exact order -- *)
Ordered(t) == t \in DOMAIN wt /\ Exact(wt[t]) /\ Wants("protocol")
TCbBefore == Is("CbBefore") /\ Ordered(e.t) /\ CbBefore(e.t, e.id)
TCbBranch == Is("CbBranch") /\ Ordered(e.t) /\ CbBranch(e.t, e.id, e.name)
TPoll     == Is("Poll") /\ Ordered(e.t) /\ e.n = 1 /\ Poll(e.t, e.b, e.tok)
TPollEnd  == Is("PollEnd") /\ Ordered(e.t) /\ PollEnd(e.t, e.b)

(* -- or only what each provider gave, when the order is not being judged -- *)
Loose(t) == t \in DOMAIN wt /\ ~Ordered(t) /\ wt[t].ph = "round"
LCb == (Is("CbBefore") \/ Is("CbBranch")) /\ Loose(e.t) /\ Stay
LPoll ==
    /\ Is("Poll") /\ Loose(e.t) /\ e.b \in 1..Len(wt[e.t].cols) /\ wt[e.t].cols[e.b].left >= e.n
    /\ wt' = [wt EXCEPT ![e.t].cols[e.b].data = Append(@, [n |-> e.n, tok |-> e.tok]),
                        ![e.t].cols[e.b].left = @ - e.n]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>
LPollEnd ==
    /\ Is("PollEnd") /\ Loose(e.t) /\ e.b \in 1..Len(wt[e.t].cols) /\ wt[e.t].cols[e.b].left = 0
    /\ wt' = [wt EXCEPT ![e.t].cols[e.b].done = TRUE]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>
(* the loose tree has been drained: same obligations as the ordered one at its end *)
Drained(t) ==
    IF t \in DOMAIN wt /\ Loose(t) /\ wt[t].f = e.f
    THEN /\ \A j \in 1..Len(wt[t].cols) : wt[t].cols[j].left = 0
         /\ wf' = IF Writable(e.f) /\ ~wt[t].bad
                  THEN [wf EXCEPT ![e.f].keys = Append(@, [Stored(wt[t], CycleOf(@, wt[t].name)) EXCEPT
                            !.entries = MaxOf({Len1(wt[t].cols[j]) : j \in 1..Len(wt[t].cols)})])]
                  ELSE wf
         /\ wt' = [wt EXCEPT ![t].ph = "done"]
         /\ Writable(e.f) /\ ~wt[t].bad
         /\ UNCHANGED <<disk, rf, rt, it>>
    ELSE FALSE

TWriteOk == Is("WriteEnd") /\ e.res = "ok" /\ (WriteOk(e.t, e.f) \/ Drained(e.t))
TWriteRefused == Is("WriteEnd") /\ e.res \in {"err", "nofile"} /\ WriteRefused(e.t, e.f)

TClose == Is("Close") /\ e.res = "ok" /\ Close(e.f)
TCloseRefused == Is("Close") /\ e.res = "err" /\ CloseRefused(e.f)
TDrop == Is("Drop") /\ e.res = "ok" /\ Drop(e.f)
TCopy == Is("Copy") /\ e.res = "ok" /\ CopyFile(e.from, e.to)

TRename == Is("Rename") /\ e.res = "ok" /\ MoveFile(e.from, e.to)
TUnlink == Is("Unlink") /\ e.res = "ok" /\ RemoveFile(e.path)

TOpen == Is("Open") /\ e.res = "ok" /\ Open(e.f, e.path)
TOpenRefused == Is("Open") /\ e.res = "err" /\ OpenRefused(e.path)
TKeys == Is("Keys") /\ e.res = "ok" /\ Keys(e.f, e.names)

(* what a freshly opened tree says about itself *)
MetaOk(S) ==
    /\ Len(e.branches) = Len(S.cols)
    /\ \A j \in 1..Len(S.cols) : e.branches[j].name = S.cols[j].name
    /\ Wants("counts") =>
        /\ e.entries = S.entries
        /\ \A j \in 1..Len(S.cols) : e.branches[j].entries = Len1(S.cols[j])
TGet == Is("Get") /\ e.res = "ok" /\ Get(e.f, e.name, e.rt) /\ MetaOk(rt'[e.rt])
TGetRefused == Is("Get") /\ e.res = "err" /\ GetRefused(e.f, e.name)

(* by position (bi, 0-based) or by name: the first column of that name *)
ColOf(S) ==
    IF "bi" \in DOMAIN e THEN e.bi + 1
    ELSE LET idx == {j \in 1..Len(S.cols) : S.cols[j].name = e.b} IN IF idx = {} THEN 0 ELSE MinOf(idx)
TIter == Is("Iter") /\ e.res = "ok" /\ e.rt \in DOMAIN rt /\ Iter(e.rt, ColOf(rt[e.rt]), e.ty, e.it)
(* big arrays are read element by element, outside the typed interface *)
TIterRaw == Is("Iter") /\ e.res = "ok" /\ e.rt \in DOMAIN rt /\ "raw" \in DOMAIN e
            /\ Iter(e.rt, ColOf(rt[e.rt]), rt[e.rt].cols[ColOf(rt[e.rt])].ty, e.it)
TIterRefused == Is("Iter") /\ e.res = "err" /\ e.rt \in DOMAIN rt /\ IterRefused(e.rt, ColOf(rt[e.rt]), e.ty)
TIterMissing == Is("Iter") /\ e.res = "nobranch" /\ e.rt \in DOMAIN rt /\ "b" \in DOMAIN e /\ IterMissing(e.rt, e.b)
TNext == Is("Next") /\ Next1(e.it, e.n, e.tok)
TNextEnd == Is("NextEnd") /\ NextEnd(e.it)
TDropIter == Is("DropIter") /\ DropIter(e.it)

TraceNext ==
    \/ Reset \/ Skip \/ TCreate \/ TCreateRefused \/ TNewTree \/ TNewBranch \/ TAddCallback \/ TWriteStart
    \/ TCbBefore \/ TCbBranch \/ TPoll \/ TPollEnd \/ LCb \/ LPoll \/ LPollEnd
    \/ TWriteOk \/ TWriteRefused \/ TClose \/ TCloseRefused \/ TDrop \/ TCopy \/ TRename \/ TUnlink
    \/ TOpen \/ TOpenRefused \/ TKeys \/ TGet \/ TGetRefused
    \/ TIter \/ TIterRaw \/ TIterRefused \/ TIterMissing \/ TNext \/ TNextEnd \/ TDropIter

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* the design's invariants, at every step of the real execution *)
TraceInv ==
    LET last == IF l > 1 THEN Trace[l - 1].ev ELSE "none" IN   \* only the steps that can break them
    /\ last \in {"WriteEnd", "Close"} => (CyclesInOrder /\ EntriesIsLongest)
    /\ last = "Next" => IteratorInside
    /\ (Wants("protocol") /\ last \in {"Poll", "PollEnd", "WriteEnd"}) => (Lockstep /\ FlushedMeansAll)

TraceAccepted ==
    /\ PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
    /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
