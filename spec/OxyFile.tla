------------------------------- MODULE OxyFile -------------------------------
(***************************************************************************)
(* The file as its writer builds it: records laid end to end, trees owning *)
(* the baskets written for them, and at the end key list, class            *)
(* descriptions, free list and header.  Positions are byte offsets.        *)
(*                                                                         *)
(* rec == [at, nb, kl, ol]: position, total length, length of the record's *)
(* own header, length of its content                                       *)
(***************************************************************************)
EXTENDS Store, TLC

VARIABLES
    ph,     \* none, open, keys, info, free, closed
    end,    \* first byte after the last record
    recs,   \* all records, in file order
    pend,   \* baskets written and not yet owned by a stored tree: Seq of rec + [tree, nev]
    lost,   \* positions of baskets of trees that were refused
    trees,  \* Seq of [name, cycle, at, nb, kl, ol, baskets]: baskets = set of positions it owns
    ptr     \* the pointers of directory and header, as they will be found in the file

fvars == <<ph, end, recs, pend, lost, trees, ptr>>

Begin == 100
NoPtr == [keys |-> 0, nkeys |-> 0, info |-> 0, ninfo |-> 0, free |-> 0, nfree |-> 0, end |-> 0, seg |-> 0]

FInit == /\ ph = "none" /\ end = Begin /\ recs = <<>> /\ pend = <<>> /\ lost = {} /\ trees = <<>> /\ ptr = NoPtr

(* every record goes to the end of what is there, and is as long as it says *)
Lay(r) ==
    /\ r.at = end /\ r.kl > 0 /\ r.ol >= 0 /\ r.nb = r.kl + r.ol
    /\ end' = end + r.nb
    /\ recs' = Append(recs, r)

MakeFile(r) ==
    /\ ph = "none" /\ Lay(r) /\ ph' = "open"
    /\ UNCHANGED <<pend, lost, trees, ptr>>

PutBasket(r, tree, nev) ==
    /\ ph = "open" /\ Lay(r) /\ nev >= 0
    /\ pend' = Append(pend, [at |-> r.at, nb |-> r.nb, kl |-> r.kl, ol |-> r.ol, tree |-> tree, nev |-> nev])
    /\ UNCHANGED <<ph, lost, trees, ptr>>

(* -- the index of one column: j-th basket at seek[j], of bytes[j], first entry first[j] -- *)
At(p) == {j \in 1..Len(pend) : pend[j].at = p}
IndexOk(c, tree) ==
    LET n == c.nbk IN
    /\ Len(c.seek) >= n + 1 /\ Len(c.bytes) = Len(c.seek) /\ Len(c.first) = Len(c.seek)
    /\ c.first[1] = 0 /\ c.first[n + 1] = c.entries
    /\ \A j \in 1..n : \E x \in At(c.seek[j]) :
          /\ pend[x].tree = tree
          /\ c.bytes[j] = pend[x].nb
          /\ c.first[j + 1] = c.first[j] + pend[x].nev
    /\ \A j \in 1..n - 1 : c.seek[j] < c.seek[j + 1]
    /\ \A j \in n + 1..Len(c.seek) : c.seek[j] = 0 /\ c.bytes[j] = 0
    /\ c.total = SumSeq([j \in 1..n |-> c.bytes[j]])
Owned(cols) == UNION {{cols[i].seek[j] : j \in 1..cols[i].nbk} : i \in 1..Len(cols)}
NextCycle(name) == 1 + MaxOf({trees[j].cycle : j \in {x \in 1..Len(trees) : trees[x].name = name}})

PutTree(r, name, cycle, cols) ==
    /\ ph = "open" /\ Lay(r)
    /\ cycle = NextCycle(name)
    /\ \A i \in 1..Len(cols) : IndexOk(cols[i], name)
    (* no basket belongs to two columns, and none of this tree is left without an owner *)
    /\ SumSeq([i \in 1..Len(cols) |-> cols[i].nbk]) = Cardinality(Owned(cols))
    /\ Owned(cols) = {pend[j].at : j \in {x \in 1..Len(pend) : pend[x].tree = name}}
    /\ pend' = SelectSeq(pend, LAMBDA b : b.tree # name)
    /\ trees' = Append(trees, [name |-> name, cycle |-> cycle, at |-> r.at, nb |-> r.nb, kl |-> r.kl, ol |-> r.ol,
                               baskets |-> Owned(cols)])
    /\ UNCHANGED <<ph, lost, ptr>>

(* a tree that can not be stored leaves its baskets behind *)
RefuseTree(name) ==
    /\ ph = "open"
    /\ lost' = lost \cup {pend[j].at : j \in {x \in 1..Len(pend) : pend[x].tree = name}}
    /\ pend' = SelectSeq(pend, LAMBDA b : b.tree # name)
    /\ UNCHANGED <<ph, end, recs, trees, ptr>>

(* the key list names exactly the stored trees, in order, where they are *)
KeysOk(list) ==
    /\ Len(list) = Len(trees)
    /\ \A j \in 1..Len(list) :
          /\ list[j].name = trees[j].name /\ list[j].cycle = trees[j].cycle /\ list[j].at = trees[j].at
          /\ list[j].nb = trees[j].nb /\ list[j].kl = trees[j].kl /\ list[j].ol = trees[j].ol

SaveKeys(r, list) ==
    /\ ph = "open" /\ pend = <<>> /\ Lay(r) /\ KeysOk(list)
    /\ ptr' = [ptr EXCEPT !.keys = r.at, !.nkeys = r.nb]
    /\ ph' = "keys"
    /\ UNCHANGED <<pend, lost, trees>>

(* infos: Seq of [name, ver, parts]; needed: classes that must be described *)
Builtin == {"TObject", "TString"}
InfosOk(infos, needed, allowed) ==
    LET names == {infos[j].name : j \in 1..Len(infos)} IN
    /\ Cardinality(names) = Len(infos)
    /\ needed \subseteq names
    /\ \A j \in 1..Len(infos) : infos[j].parts \subseteq (names \cup Builtin)
    (* nothing is described that neither a column nor a description needs *)
    /\ names \subseteq (needed \cup allowed \cup UNION {infos[j].refs : j \in 1..Len(infos)})

SaveInfo(r) ==
    /\ ph = "keys" /\ Lay(r)
    /\ ptr' = [ptr EXCEPT !.info = r.at, !.ninfo = r.nb]
    /\ ph' = "info"
    /\ UNCHANGED <<pend, lost, trees>>

SaveFree(r, segs) ==
    /\ ph = "info" /\ Lay(r)
    /\ Len(segs) = 1 /\ segs[1][1] = end' /\ segs[1][2] > end'
    /\ ptr' = [ptr EXCEPT !.free = r.at, !.nfree = r.nb, !.end = end', !.seg = Len(segs)]
    /\ ph' = "free"
    /\ UNCHANGED <<pend, lost, trees>>

(* the pointers written last, and the size of the file on disk *)
Finish(p, size) ==
    /\ ph = "free" /\ p = ptr /\ size = end
    /\ ph' = "closed"
    /\ UNCHANGED <<end, recs, pend, lost, trees, ptr>>

----------------------------------------------------------------------------
(* ---- what holds of every reachable file ---- *)
Tiled ==
    /\ recs # <<>> => recs[1].at = Begin
    /\ \A j \in 1..Len(recs) - 1 : recs[j + 1].at = recs[j].at + recs[j].nb
    /\ recs # <<>> => end = recs[Len(recs)].at + recs[Len(recs)].nb
RecAt(p) == \E j \in 1..Len(recs) : recs[j].at = p
Pointers ==
    /\ \A j \in 1..Len(trees) : RecAt(trees[j].at) /\ \A b \in trees[j].baskets : RecAt(b) /\ b < trees[j].at
    /\ ph = "closed" => RecAt(ptr.keys) /\ RecAt(ptr.info) /\ RecAt(ptr.free) /\ ptr.end = end
OneOwner ==
    /\ \A i, j \in 1..Len(trees) : i # j => trees[i].baskets \cap trees[j].baskets = {}
    /\ \A j \in 1..Len(trees) : trees[j].baskets \cap lost = {}
Generations ==
    \A i, j \in 1..Len(trees) : (i < j /\ trees[i].name = trees[j].name) => trees[i].cycle < trees[j].cycle
ClosedHasAll == ph = "closed" => pend = <<>>
FInv == Tiled /\ Pointers /\ OneOwner /\ Generations /\ ClosedHasAll
(* records are never moved or removed *)
AppendOnly == [][IsPrefix(recs, recs')]_fvars
=============================================================================
