------------------------------ MODULE OxyTree ------------------------------
(***************************************************************************)
(* The machine a user of the library sees: files on disk, files being      *)
(* written, trees being filled from value providers, files being read and  *)
(* iterators over their columns.                                           *)
(*                                                                         *)
(* One action per public call, and one per step the library takes back     *)
(* into user code while a tree is written (callbacks and provider polls):  *)
(* those are the linearization points a driver can observe.                *)
(*                                                                         *)
(* A column's data is a sequence of cells [n, tok]: tok identifies n       *)
(* consecutive values (n = 1 unless a driver groups values).               *)
(***************************************************************************)
EXTENDS Store, TLC

VARIABLES
    disk,   \* path -> [ok, keys]: ok iff closed after its last create
    wf,     \* writer handle -> [path, keys, closed]
    wt,     \* tree being written: handle -> record, see FreshTree
    rf,     \* reader handle -> [path, keys]
    rt,     \* tree opened for reading: handle -> stored tree
    it      \* iterator -> [data, pos]

vars == <<disk, wf, wt, rf, rt, it>>

(* Which Rust types a column written with a type can be read as.  The column's type is visible   *)
(* in the file; reading is allowed exactly at that type.                                          *)
Readable(wty, rty) == wty = rty

FreshTree(name, bad) ==
    [name |-> name,      \* key name it will be stored under
     bad  |-> bad,       \* the name can not be stored (contains a slash)
     cols |-> <<>>,      \* Seq of [name, ty, left, done, data, blk]
     cbs  |-> <<>>,      \* callback ids in order of registration
     ph   |-> "build",   \* build, round, flushed, done, dead
     f    |-> "",        \* file being written to
     i    |-> 0,         \* 0: announcing the entry; j: at column j
     k    |-> 0,         \* callbacks already told at this stage
     got  |-> FALSE,     \* some column gave a value in this round
     ent  |-> 0]         \* rounds in which some column gave a value

Init == /\ disk = Empty /\ wf = Empty /\ wt = Empty
        /\ rf = Empty /\ rt = Empty /\ it = Empty

Len1(col) == SumSeq([j \in 1..Len(col.data) |-> col.data[j].n])
Exact(t)  == \A j \in 1..Len(t.cols) : t.cols[j].blk = 1

----------------------------------------------------------------------------
(* ---- writing ---- *)

Create(f, p) ==
    /\ f \notin DOMAIN wf /\ f \notin DOMAIN rf
    /\ wf'   = Put(wf, f, [path |-> p, keys |-> <<>>, closed |-> FALSE])
    /\ disk' = Put(disk, p, [ok |-> FALSE, keys |-> <<>>])
    /\ UNCHANGED <<wt, rf, rt, it>>

NewTree(t, name, bad) ==
    /\ wt' = Put(wt, t, FreshTree(name, bad))
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

NewBranch(t, name, ty, n, blk) ==
    /\ t \in DOMAIN wt /\ wt[t].ph = "build"
    /\ wt' = [wt EXCEPT ![t].cols =
                 Append(@, [name |-> name, ty |-> ty, left |-> n, done |-> FALSE, data |-> <<>>, blk |-> blk])]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

AddCallback(t, id) ==
    /\ t \in DOMAIN wt /\ wt[t].ph = "build"
    /\ wt' = [wt EXCEPT ![t].cbs = Append(@, id)]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

(* the position after the announcement of an entry / after column j of it *)
StartRound(T) == [T EXCEPT !.i = IF T.cbs = <<>> THEN 1 ELSE 0, !.k = 0, !.got = FALSE]
EndRound(T) ==
    IF T.i <= Len(T.cols) THEN T
    ELSE IF T.got THEN StartRound([T EXCEPT !.ent = @ + 1])
         ELSE [T EXCEPT !.ph = "flushed"]
StepCol(T, gave) == EndRound([T EXCEPT !.i = @ + 1, !.k = 0, !.got = @ \/ gave])

WriteStart(t, f) ==
    /\ t \in DOMAIN wt /\ wt[t].ph = "build"
    /\ wt' = [wt EXCEPT ![t] = EndRound(StartRound([@ EXCEPT !.ph = "round", !.f = f]))]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

CbBefore(t, id) ==
    LET T == wt[t] IN
    /\ t \in DOMAIN wt /\ T.ph = "round" /\ T.i = 0
    /\ T.k < Len(T.cbs) /\ T.cbs[T.k + 1] = id
    /\ wt' = [wt EXCEPT ![t] = IF T.k + 1 = Len(T.cbs) THEN EndRound([T EXCEPT !.i = 1, !.k = 0])
                               ELSE [T EXCEPT !.k = @ + 1]]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

CbBranch(t, id, name) ==
    LET T == wt[t] IN
    /\ t \in DOMAIN wt /\ T.ph = "round" /\ T.i \in 1..Len(T.cols)
    /\ T.k < Len(T.cbs) /\ T.cbs[T.k + 1] = id /\ T.cols[T.i].name = name
    /\ wt' = [wt EXCEPT ![t].k = @ + 1]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

(* the provider of column b is asked and gives a value *)
Poll(t, b, tok) ==
    LET T == wt[t] IN
    /\ t \in DOMAIN wt /\ T.ph = "round" /\ T.i = b /\ b \in 1..Len(T.cols) /\ T.k = Len(T.cbs)
    /\ T.cols[b].left > 0 /\ ~T.cols[b].done
    /\ wt' = [wt EXCEPT ![t] = StepCol([T EXCEPT !.cols[b].data = Append(@, [n |-> 1, tok |-> tok]),
                                                 !.cols[b].left = @ - 1], TRUE)]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

(* ... or has nothing more to give *)
PollEnd(t, b) ==
    LET T == wt[t] IN
    /\ t \in DOMAIN wt /\ T.ph = "round" /\ T.i = b /\ b \in 1..Len(T.cols) /\ T.k = Len(T.cbs)
    /\ T.cols[b].left = 0
    /\ wt' = [wt EXCEPT ![t] = StepCol([T EXCEPT !.cols[b].done = TRUE], FALSE)]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

CycleOf(keys, name) == 1 + MaxOf({keys[j].cycle : j \in {x \in 1..Len(keys) : keys[x].name = name}})

Stored(T, cyc) ==
    [name |-> T.name, cycle |-> cyc, entries |-> T.ent,
     cols |-> [j \in 1..Len(T.cols) |-> [name |-> T.cols[j].name, ty |-> T.cols[j].ty, data |-> T.cols[j].data]]]

NoPath == ""      \* the file is not to be found any more
Writable(f) == f \in DOMAIN wf /\ ~wf[f].closed

WriteOk(t, f) ==
    LET T == wt[t] IN
    /\ t \in DOMAIN wt /\ T.ph = "flushed" /\ T.f = f /\ Writable(f) /\ ~T.bad
    /\ wf' = [wf EXCEPT ![f].keys = Append(@, Stored(T, CycleOf(@, T.name)))]
    /\ wt' = [wt EXCEPT ![t].ph = "done"]
    /\ UNCHANGED <<disk, rf, rt, it>>

(* refused: nothing visible changes in any file *)
WriteRefused(t, f) ==
    LET T == wt[t] IN
    /\ t \in DOMAIN wt /\ T.ph \in {"round", "flushed"} /\ T.f = f
    /\ T.bad \/ ~Writable(f)
    /\ wt' = [wt EXCEPT ![t].ph = "dead"]
    /\ UNCHANGED <<disk, wf, rf, rt, it>>

Close(f) ==
    /\ Writable(f)
    /\ wf'   = [wf EXCEPT ![f].closed = TRUE]
    /\ disk' = IF wf[f].path = NoPath THEN disk ELSE Put(disk, wf[f].path, [ok |-> TRUE, keys |-> wf[f].keys])
    /\ UNCHANGED <<wt, rf, rt, it>>

(* closing a file opened for reading is refused *)
CloseRefused(f) ==
    /\ f \in DOMAIN rf
    /\ UNCHANGED vars

Drop(f) ==
    /\ wf' = IF f \in DOMAIN wf THEN Del(wf, f) ELSE wf
    /\ rf' = IF f \in DOMAIN rf THEN Del(rf, f) ELSE rf
    /\ UNCHANGED <<disk, wt, rt, it>>

CopyFile(p, q) ==
    /\ p \in DOMAIN disk
    /\ disk' = Put(disk, q, disk[p])
    /\ UNCHANGED <<wf, wt, rf, rt, it>>

(* A file may get another name, another file's name, or none, while programs write or read it:   *)
(* a writer goes on with the file it made, a reader with the file it opened.                      *)
MoveFile(p, q) ==
    /\ p \in DOMAIN disk /\ p # q
    /\ disk' = Put(Del(disk, p), q, disk[p])
    /\ wf' = [f \in DOMAIN wf |-> [wf[f] EXCEPT !.path = IF @ = p THEN q ELSE IF @ = q THEN NoPath ELSE @]]
    /\ UNCHANGED <<wt, rf, rt, it>>

RemoveFile(p) ==
    /\ p \in DOMAIN disk
    /\ disk' = Del(disk, p)
    /\ wf' = [f \in DOMAIN wf |-> [wf[f] EXCEPT !.path = IF @ = p THEN NoPath ELSE @]]
    /\ UNCHANGED <<wt, rf, rt, it>>

----------------------------------------------------------------------------
(* ---- reading ---- *)

Open(f, p) ==
    /\ f \notin DOMAIN wf /\ f \notin DOMAIN rf
    /\ p \in DOMAIN disk /\ disk[p].ok
    /\ rf' = Put(rf, f, [path |-> p, keys |-> disk[p].keys])
    /\ UNCHANGED <<disk, wf, wt, rt, it>>

OpenRefused(p) ==
    /\ p \notin DOMAIN disk
    /\ UNCHANGED vars

NamesOf(keys) == [j \in 1..Len(keys) |-> keys[j].name]

Keys(f, names) ==
    /\ f \in DOMAIN rf
    /\ names = NamesOf(rf[f].keys)
    /\ UNCHANGED vars

(* A name leads to its newest generation; "name;generation" to that one, unless it is itself a name *)
Asked(key) == key.name \o ";" \o ToString(key.cycle)
Found(keys, q) ==
    LET named == {j \in 1..Len(keys) : keys[j].name = q} IN
    IF named # {} THEN {CHOOSE j \in named : \A x \in named : keys[x].cycle <= keys[j].cycle}
    ELSE {j \in 1..Len(keys) : Asked(keys[j]) = q}

Get(f, q, r) ==
    /\ f \in DOMAIN rf
    /\ \E j \in Found(rf[f].keys, q) : rt' = Put(rt, r, rf[f].keys[j])
    /\ UNCHANGED <<disk, wf, wt, rf, it>>

GetRefused(f, q) ==
    /\ f \in DOMAIN rf \/ f \in DOMAIN wf
    /\ f \in DOMAIN rf => Found(rf[f].keys, q) = {}
    /\ UNCHANGED vars

Iter(r, b, ty, i) ==
    /\ r \in DOMAIN rt /\ b \in 1..Len(rt[r].cols)
    /\ Readable(rt[r].cols[b].ty, ty)
    /\ it' = Put(it, i, [data |-> rt[r].cols[b].data, pos |-> 0])
    /\ UNCHANGED <<disk, wf, wt, rf, rt>>

IterRefused(r, b, ty) ==
    /\ r \in DOMAIN rt /\ b \in 1..Len(rt[r].cols)
    /\ ~Readable(rt[r].cols[b].ty, ty)
    /\ UNCHANGED vars

IterMissing(r, name) ==
    /\ r \in DOMAIN rt
    /\ \A b \in 1..Len(rt[r].cols) : rt[r].cols[b].name # name
    /\ UNCHANGED vars

Next1(i, n, tok) ==
    /\ i \in DOMAIN it /\ it[i].pos < Len(it[i].data)
    /\ it[i].data[it[i].pos + 1] = [n |-> n, tok |-> tok]
    /\ it' = [it EXCEPT ![i].pos = @ + 1]
    /\ UNCHANGED <<disk, wf, wt, rf, rt>>

NextEnd(i) ==
    /\ i \in DOMAIN it /\ it[i].pos = Len(it[i].data)
    /\ UNCHANGED vars

DropIter(i) ==
    /\ it' = Del(it, i)
    /\ UNCHANGED <<disk, wf, wt, rf, rt>>

----------------------------------------------------------------------------
(* ---- what must hold of every reachable state ---- *)

AllStored ==
    UNION {{wf[f].keys[j] : j \in 1..Len(wf[f].keys)} : f \in DOMAIN wf}
    \cup UNION {{disk[p].keys[j] : j \in 1..Len(disk[p].keys)} : p \in DOMAIN disk}

(* entry count of a tree = length of its longest column *)
EntriesIsLongest ==
    \A S \in AllStored : S.entries = MaxOf({Len1(S.cols[j]) : j \in 1..Len(S.cols)})

(* generations of one name are 1, 2, ... in order of writing *)
CyclesInOrder ==
    \A f \in DOMAIN wf :
        \A j \in 1..Len(wf[f].keys) :
            wf[f].keys[j].cycle =
                Cardinality({x \in 1..j : wf[f].keys[x].name = wf[f].keys[j].name})

(* in a round, every unfinished column before the position has been asked exactly once more *)
(* than every unfinished column from it on: all columns advance together *)
Lockstep ==
    \A t \in DOMAIN wt : LET T == wt[t] IN
        (T.ph = "round" /\ Exact(T)) =>
            \A j \in 1..Len(T.cols) :
                ~T.cols[j].done =>
                    Len(T.cols[j].data) = T.ent + (IF j < T.i THEN 1 ELSE 0)

(* nothing is finished while a provider still has values *)
FlushedMeansAll ==
    \A t \in DOMAIN wt :
        (wt[t].ph \in {"flushed", "done"} /\ Exact(wt[t])) =>
            \A j \in 1..Len(wt[t].cols) : wt[t].cols[j].left = 0

(* no tree of a file is out of reach: each can be asked for by name and generation *)
AllReachable ==
    \A f \in DOMAIN rf : \A j \in 1..Len(rf[f].keys) :
        \/ Found(rf[f].keys, Asked(rf[f].keys[j])) = {j}
        \/ \E x \in 1..Len(rf[f].keys) : rf[f].keys[x].name = Asked(rf[f].keys[j])

IteratorInside == \A i \in DOMAIN it : it[i].pos \in 0..Len(it[i].data)

Inv == EntriesIsLongest /\ CyclesInOrder /\ Lockstep /\ FlushedMeansAll /\ IteratorInside /\ AllReachable

(* a closed file's content never changes except by creating the file again or putting another in its place *)
ClosedIsFixed ==
    [][\A p \in DOMAIN disk :
          (disk[p].ok /\ p \in DOMAIN disk' /\ disk'[p].ok) =>
              \/ disk'[p].keys = disk[p].keys
              \/ \E f \in DOMAIN wf : wf[f].path = p
              \/ \E q \in DOMAIN disk \ DOMAIN disk' : disk'[p] = disk[q]]_vars

(* what is open for reading stays what it was when it was opened, whatever happens to paths *)
OpenIsFixed ==
    [][/\ \A f \in DOMAIN rf \cap DOMAIN rf' : rf'[f] = rf[f]
       /\ \A i \in DOMAIN it \cap DOMAIN it' : it'[i].data = it[i].data]_vars
=============================================================================
