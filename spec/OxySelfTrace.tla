--------------------------- MODULE OxySelfTrace ---------------------------
(***************************************************************************)
(* A file found on disk, its trees read member by member as its own class  *)
(* descriptions say: every step must be one of OxySelf's, and what is found *)
(* must be what the program wrote.                                          *)
(***************************************************************************)
EXTENDS OxySelf, OxyLeaf, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dx, tx, open
tvars == <<svars, l, dx, tx, open>>

TInit == SInit /\ l = 1 /\ dx = 0 /\ tx = 0 /\ open = FALSE
e == Trace[l]
At(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
Descs == Trace[dx].list
Same == UNCHANGED <<dx, tx, open>>

Reset == /\ At("Scenario") /\ ~open /\ dx' = 0 /\ tx' = 0 /\ open' = FALSE
         /\ stack' = <<>> /\ pos' = 0 /\ objs' = {} /\ mem' = None /\ found' = <<>>
Skip == At("End") /\ ~open /\ UNCHANGED <<svars, dx, tx, open>>
TDescs == /\ At("Descs") /\ dx = 0 /\ dx' = l /\ UNCHANGED <<svars, tx, open>>
          (* no class is described twice *)
          /\ \A i, j \in 1..Len(e.list) : i # j => e.list[i].name # e.list[j].name
TTree == /\ At("Tree") /\ dx > 0 /\ ~open /\ stack = <<>> /\ tx' = l /\ open' = TRUE
         /\ pos' = 0 /\ objs' = {} /\ mem' = None /\ found' = <<>> /\ UNCHANGED <<stack, dx>>

(* of the columns, what places their entries *)
Facts == {"fName", "fEntries", "fEntryNumber", "fFirstEntry", "fWriteBasket", "fBasketSeek", "fBasketBytes", "fBasketEntry",
          "fLeaves", "fBranches", "fBaskets", "fOffset", "fSplitLevel", "fFileName", "fBasketSize", "fMaxBaskets", "fCompress"}
Tells(f, fr) == IF fr.k # "object" /\ fr.cls \in {"TBranch", "TBranchElement"} THEN Append(f, [n \in Facts \cap DOMAIN fr.mem |-> fr.mem[n]]) ELSE f
TIn == At("In") /\ open /\ Begin(e, Descs) /\ (stack = <<>> => e.cls = "TTree") /\ Same
TOut == At("Out") /\ open /\ Leave(e, Descs, Tells) /\ Same
TMember == /\ open /\ Same
           /\ \/ At("Basic") /\ Basic(e, Descs)
              \/ At("Ptr") /\ Pointed(e, Descs)
              \/ At("Text") /\ Text(e, Descs)
              \/ At("TObject") /\ TObject(e, Descs)
              \/ At("Numbers") /\ Numbers(e, Descs)
              \/ At("Items") /\ Items(e, Descs)
              \/ At("Null") /\ Nothing(e, Descs)
              \/ At("Again") /\ Again(e, Descs)
              \/ At("Whole") /\ Whole(e, Descs)
              \/ At("Leaf") /\ Leaf(e, Descs)

(* -- what was found is what was written *)
W == Trace[tx].want
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Before(_, _)
Before(bs, j) == IF j = 0 THEN 0 ELSE bs[j].nev + Before(bs, j - 1)
ColOk(c, w) ==
    LET at(p) == {b \in 1..Len(Trace[tx].places) : Trace[tx].places[b].at = p}
        n == c["fWriteBasket"]
        bs == [j \in 1..n |-> Trace[tx].places[CHOOSE b \in at(c["fBasketSeek"][j]) : TRUE]] IN
    /\ DOMAIN c = Facts
    (* nothing is below it, nothing kept back, nothing elsewhere *)
    /\ c["fBranches"] = <<>> /\ c["fBaskets"] = <<>> /\ c["fFileName"] = "" /\ c["fOffset"] = 0 /\ c["fSplitLevel"] = 0
    /\ Len(c["fLeaves"]) = 1 /\ c["fBasketSize"] = 32768 /\ c["fMaxBaskets"] > n /\ c["fCompress"] = 0
    /\ c["fName"] = w.name /\ c["fEntries"] = w.n /\ c["fEntryNumber"] = w.n /\ c["fFirstEntry"] = 0
    /\ \A j \in 1..n : at(c["fBasketSeek"][j]) # {}
    /\ \A j \in 1..n : bs[j].name = w.name /\ bs[j].nb = c["fBasketBytes"][j] /\ c["fBasketEntry"][j] = Before(bs, j - 1)
    /\ Before(bs, n) = w.n
(* what nobody sets is what a fresh tree has *)
Big == 1073741824
Usual == [fWeight |-> 1, fTimerInterval |-> 0, fScanField |-> 25, fUpdate |-> 0, fDefaultEntryOffsetLen |-> 1000, fNClusterRange |-> 0,
          fMaxEntries |-> Big, fMaxEntryLoop |-> Big, fMaxVirtualSize |-> 0, fAutoSave |-> -300000000, fAutoFlush |-> -30000000, fEstimate |-> 1000000,
          fSavedBytes |-> 0, fFlushedBytes |-> 0, fZipBytes |-> 0, fLineColor |-> 602, fLineStyle |-> 1, fLineWidth |-> 1, fFillColor |-> 0, fFillStyle |-> 1001,
          fMarkerColor |-> 1, fMarkerStyle |-> 1, fMarkerSize |-> 1]
RECURSIVE Leaves(_)
Leaves(n) == IF n = 0 THEN <<>> ELSE Leaves(n - 1) \o found[n]["fLeaves"]
TTreeEnd == /\ At("TreeEnd") /\ open /\ stack = <<>> /\ pos = e.at /\ e.at = e.len /\ open' = FALSE /\ UNCHANGED <<svars, dx, tx>>
            /\ mem["fName"] = W.name
            /\ mem["fEntries"] = Max({W.cols[i].n : i \in 1..Len(W.cols)})
            /\ \A n \in DOMAIN Usual : n \in DOMAIN mem => mem[n] = Usual[n]
            (* the tree knows its columns, and of each the very leaf the column has *)
            /\ Len(mem["fBranches"]) = Len(found) /\ mem["fLeaves"] = Leaves(Len(found))
            /\ Len(found) = Len(W.cols) /\ \A i \in 1..Len(found) : ColOk(found[i], W.cols[i])

(* -- the entries of a collection column, by the description of the collection *)
KindOf == [i8 |-> 1, u8 |-> 11, i16 |-> 2, u16 |-> 12, i32 |-> 3, u32 |-> 13, i64 |-> 16, u64 |-> 17, f32 |-> 5, f64 |-> 8, bool |-> 18]
TColl == /\ At("Coll") /\ ~open /\ tx > 0 /\ UNCHANGED <<svars, dx, tx, open>>
         /\ LET ty == W.cols[e.col].t
                d == CHOOSE x \in 1..Len(Descs) : Descs[x].name = e.cls IN
            /\ ty.k = "vec" /\ Descs[d].els[1].code = KindOf[ty.e] /\ Descs[d].els[1].cls = e.cls
            /\ \A j \in 1..Len(e.got) : e.got[j][2] = e.got[j][3] /\ e.got[j][2] = e.got[j][1] + 10 + e.got[j][4] * Size(KindOf[ty.e])
TDone == At("Done") /\ ~open /\ e.n = e.want /\ UNCHANGED <<svars, dx, tx, open>>

TNext == Reset \/ Skip \/ TDescs \/ TTree \/ TIn \/ TOut \/ TMember \/ TTreeEnd \/ TColl \/ TDone
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
    /\ PrintT("TRACE-MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
    /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
