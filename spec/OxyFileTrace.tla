--------------------------- MODULE OxyFileTrace ---------------------------
(***************************************************************************)
(* Is a file found on disk one that OxyFile can have written?  The trace   *)
(* is the file itself, record by record in file order, as an independent   *)
(* parser sees it; `Want` says what the program wrote (names, columns,     *)
(* types, lengths).  FOCUS: layout (P03), index (P04), infos (P14),        *)
(* refusal (P06: what refused trees leave), leaf (P26), all.               *)
(***************************************************************************)
EXTENDS OxyFile, OxyLeaf, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
Wants(x) == Focus = "all" \/ Focus = x

VARIABLES l, want, used
tvars == <<fvars, l, want, used>>

NoWant == [path |-> "", trees |-> <<>>, refused |-> <<>>, extra |-> <<>>]
TInit == FInit /\ l = 1 /\ want = NoWant /\ used = {}
e == Trace[l]
Is(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1

Reset == /\ Is("Scenario")
         /\ ph' = "none" /\ end' = Begin /\ recs' = <<>> /\ pend' = <<>> /\ lost' = {} /\ trees' = <<>> /\ ptr' = NoPtr
         /\ want' = NoWant /\ used' = {}
Skip == l <= Len(Trace) /\ Trace[l].ev \in {"End", "Note"} /\ l' = l + 1 /\ UNCHANGED <<fvars, want, used>>
TWant == Is("Want") /\ ph = "none" /\ want' = [path |-> e.path, trees |-> e.trees, refused |-> e.refused, extra |-> e.extra]
         /\ UNCHANGED <<fvars, used>>

R == [at |-> e.at, nb |-> e.nb, kl |-> e.kl, ol |-> e.ol]
(* what every record says about itself *)
SelfOk == Wants("layout") =>
    /\ e.sk = e.at
    /\ e.pd = (IF ph = "none" THEN 0 ELSE Begin)
    /\ e.kl = e.hl + (IF e.cls = "TBasket" THEN 19 ELSE 0)     \* its own header, and the basket's

TMake == /\ Is("Rec") /\ e.cls = "TFile" /\ ph = "none" /\ MakeFile(R) /\ SelfOk
         /\ UNCHANGED <<want, used>>
         /\ Wants("layout") => e.name = want.path

(* -- baskets -- *)
Refused(n) == \E j \in 1..Len(want.refused) : want.refused[j] = n
(* the entry offsets cut the data into exactly the entries that are there *)
CutsOk ==
    /\ e.last = e.kl + e.dl
    /\ e.hasoff =>
        /\ Len(e.offs) = e.nev + 1
        /\ Len(e.cuts) = e.nev
        /\ e.nev > 0 => e.offs[1] = e.kl
        /\ \A j \in 1..e.nev - 1 : e.offs[j + 1] = e.offs[j] + e.cuts[j]
        /\ e.nev > 0 => e.offs[e.nev] + e.cuts[e.nev] = e.last
    /\ ~e.hasoff => e.ol = e.dl
    /\ e.w > 0 => e.dl = e.w * e.nev
(* what the basket says its entries measure, for a reader that has nothing else *)
BasketSays == /\ e.hasoff => e.nsz >= e.nev
              /\ e.w > 0 /\ e.nev > 0 => e.dl = e.nsz * e.nev
TBasket == /\ Is("Rec") /\ e.cls = "TBasket" /\ PutBasket(R, e.title, e.nev) /\ SelfOk
           /\ Wants("index") => CutsOk
           /\ Wants("leaf") => BasketSays
           /\ UNCHANGED <<want, used>>

(* a tree was refused before the next stored tree came, or before the end: silent in the file *)
(* so it is composed with the next record *)
Leftover == {pend[j].tree : j \in 1..Len(pend)}
Orphans(keep) == {n \in Leftover : n \notin keep}
DropOrphans == Is("Refuse") /\ Refused(e.name) /\ RefuseTree(e.name) /\ UNCHANGED <<want, used>>

(* -- trees -- *)
WantedTree == want.trees[Len(trees) + 1]
ColsOk ==
    LET T == WantedTree IN
    /\ Len(trees) < Len(want.trees)
    /\ e.name = T.name /\ e.tname = T.name
    /\ Len(e.cols) = Len(T.cols)
    /\ Wants("index") =>
        /\ \A i \in 1..Len(e.cols) : e.cols[i].name = T.cols[i].name /\ e.cols[i].entries = T.cols[i].n
        /\ \A i \in 1..Len(e.cols) : e.cols[i].zip = e.cols[i].total
        /\ e.datasum = e.tot
        /\ e.leaves = [i \in 1..Len(e.cols) |-> e.cols[i].leaf]
(* the column's own description says what a reader has to know to find the values in its baskets *)
LeafOk(c, t) ==
    /\ c.lname = c.name /\ c.named
    /\ Understand(c.d) = t
    /\ ~Varies(t) => c.data = BytesBy(c.d) * c.entries
    /\ Varies(t) => c.room > 0
    /\ t.k = "str" => c.d.len > c.longest          \* as many characters as any entry has, and the end
    /\ c.plain /\ c.whole
    /\ Len(c.seek) = c.maxbk /\ c.nbk < c.maxbk
LeavesOk == Wants("leaf") => \A i \in 1..Len(e.cols) : LeafOk(e.cols[i], WantedTree.cols[i].t)
TTree == /\ Is("Rec") /\ e.cls = "TTree" /\ ColsOk /\ SelfOk /\ LeavesOk
         /\ PutTree(R, e.name, e.cyc, e.cols)
         /\ used' = used \cup {e.uses[j] : j \in 1..Len(e.uses)}
         /\ UNCHANGED want

TKeys == /\ Is("Rec") /\ e.cls = "TDirectory" /\ ph = "open" /\ SelfOk
         /\ Len(trees) = Len(want.trees)
         /\ SaveKeys(R, e.keys) /\ e.left = 0
         /\ Wants("layout") => \A j \in 1..Len(e.keys) : e.keys[j].cls = "TTree" /\ e.keys[j].pd = Begin
         /\ UNCHANGED <<want, used>>

(* [cls, ver] of everything stored in the trees; the parts of a description are bases and members *)
Infos == [j \in 1..Len(e.infos) |-> [name |-> e.infos[j].name, ver |-> e.infos[j].ver,
              parts |-> ToSet(e.infos[j].parts), refs |-> ToSet(e.infos[j].refs)]]
UsedNames == {u[1] : u \in used}
VersionsOk ==
    \A j \in 1..Len(Infos) :
        /\ \A u \in used : u[1] = Infos[j].name => (u[2] = Infos[j].ver \/ u[2] = -1)
        /\ \A k \in 1..Len(Infos) : \A b \in ToSet(e.infos[k].bases) : b[1] = Infos[j].name => b[2] = Infos[j].ver
TInfo == /\ Is("Rec") /\ e.cls = "TList" /\ e.name = "StreamerInfo" /\ SelfOk /\ SaveInfo(R)
         (* a refused tree may leave the classes of its columns behind only where that is not asked about *)
         /\ (Wants("infos") \/ Wants("refusal")) =>
              /\ InfosOk(Infos, UsedNames, IF Focus = "refusal" THEN {} ELSE ToSet(want.extra))
              /\ VersionsOk
         /\ UNCHANGED <<want, used>>

TFree == /\ Is("Rec") /\ e.cls = "TFile" /\ ph = "info" /\ SelfOk /\ SaveFree(R, e.segs) /\ UNCHANGED <<want, used>>

TFinal ==
    /\ Is("Final")
    /\ Finish([keys |-> e.seekkeys, nkeys |-> e.nbyteskeys, info |-> e.seekinfo, ninfo |-> e.nbytesinfo,
               free |-> e.seekfree, nfree |-> e.nbytesfree, end |-> e.end, seg |-> e.nfree], e.size)
    /\ e.begin = Begin /\ e.seekdir = Begin /\ e.seekparent = 0
    /\ e.nbytesname = e.hnbytesname /\ e.nbytesname = e.namesend
    /\ e.headpad = TRUE
    /\ FInv'
    /\ UNCHANGED <<want, used>>

TNext == Reset \/ Skip \/ TWant \/ TMake \/ TBasket \/ DropOrphans \/ TTree \/ TKeys \/ TInfo \/ TFree \/ TFinal
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
    /\ PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
    /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
