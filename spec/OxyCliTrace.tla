---------------------------- MODULE OxyCliTrace -----------------------------
(***************************************************************************)
(* What the command-line tools print about a file, against the content of   *)
(* the file (disk) and against what the library says about its columns      *)
(* (meta: recorded AllBranches events).  The lines of the tools are recorded *)
(* taken apart:                                                              *)
(*   Ls    keys: [cls, name, title, shown: name, cols: [name, ty, interp]]   *)
(*   Dump  trees: [name, cols, rows: [i, name, tok]] or, for long ones,      *)
(*         [name, cols, bycol: [name, data], shape: [names, n]]: the values of *)
(*         a name up to its last one, and runs of entries 0, 1, 2 .. with the  *)
(*         same names                                                          *)
(* Both tools say with rc = 0 that they came to the end.  A tree of the file  *)
(* with columns of parts has a field flat: all columns in the order listed.   *)
(***************************************************************************)
EXTENDS OxyReadTrace
VARIABLE meta      \* <<path, tree>> -> branches as the library lists them
cvars == <<rvars, meta>>
CInit == RInit /\ meta = Empty
Path == rf[CHOOSE f \in DOMAIN rf : TRUE].path     \* the scenario has one reader
CAll == /\ Is("AllBranches") /\ e.res = "ok" /\ e.rt \in DOMAIN rt
        /\ meta' = Put(meta, <<Path, rt[e.rt].name>>, e.branches) /\ Stay /\ UNCHANGED bad

Shown(c, m) == c.name = m.name /\ c.ty = m.ty /\ c.interp = m.interp
ShownAll(cs, ms) == Len(cs) = Len(ms) /\ \A j \in 1..Len(cs) : Shown(cs[j], ms[j])
IsTree(x) == "cols" \in DOMAIN x
(* directories were called TDirectory once: they are the same as those made today *)
ClassShown(c) == IF c = "TDirectory" THEN "TDirectoryFile" ELSE c
(* columns are shown for the newest tree of a name, whatever key it is listed under *)
KeyShown(x, p, D) ==
    /\ x.name = D.name /\ x.cls = (IF IsTree(D) THEN "TTree" ELSE ClassShown(D.cls))
    /\ x.shown = x.name
    /\ "title" \in DOMAIN D => x.title = D.title
    /\ IF IsTree(D) THEN ShownAll(x.cols, meta[<<p, D.name>>]) ELSE x.cols = <<>>
TLs == /\ Is("Ls") /\ e.rc = 0 /\ e.path \in DOMAIN disk
       /\ LET K == disk[e.path].keys IN Len(e.keys) = Len(K) /\ \A j \in 1..Len(K) : KeyShown(e.keys[j], e.path, K[j])
       /\ UNCHANGED <<vars, bad, meta>>

(* ---- dump *)
Prim == {"u8", "i8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool", "String", "TString"}
Keyed == {"u8", "i8", "i16", "u16", "i32", "u32", "bool", "String", "TString"}
Shows(ty) ==
    \/ ty \in Prim
    \/ \E x \in Prim \ {"i64", "u64"} : ty \in {"Slice<" \o x \o ">", "Vec<" \o x \o ">", "Vec<Vec<" \o x \o ">>"}
    \/ \E x \in Keyed : ty \in {"HashSet<" \o x \o ">", "Vec<HashSet<" \o x \o ">>"}
    \/ \E a \in Keyed, b \in Prim \ {"i64", "u64"} : ty \in {"HashMap<" \o a \o "," \o b \o ">", "HashMap<" \o a \o ",Vec<" \o b \o ">>", "HashMap<" \o a \o ",Vec<Vec<" \o b \o ">>>", "HashMap<" \o a \o ",Slice<" \o b \o ">>"}
    \/ \E a, b \in Keyed : ty \in {"HashMap<" \o a \o ",HashSet<" \o b \o ">>", "HashMap<" \o a \o ",Vec<HashSet<" \o b \o ">>>"}
    \/ \E x \in Prim \ {"String", "TString"}, n \in {1, 3, 5, 10, 17} : ty = "[" \o x \o ";" \o ToString(n) \o "]"
(* the columns that are dumped, with their content: those without parts whose type is shown *)
Columns(S) == IF "flat" \in DOMAIN S THEN S.flat ELSE S.cols
Dumped(S, ms) == SelectSeq(Columns(S), LAMBDA c : \E j \in 1..Len(ms) : ms[j].name = c.name /\ Shows(ms[j].interp))
Cell(c, r) == IF r < Len(c.data) THEN c.data[r + 1].tok ELSE "None"
RowsOk(S, D, rows) ==
    /\ Len(rows) = S.entries * Len(D)
    /\ \A x \in 1..Len(rows) :
          LET r == (x - 1) \div Len(D)  c == D[((x - 1) % Len(D)) + 1] IN
          rows[x].i = r /\ rows[x].name = c.name /\ rows[x].tok = Cell(c, r)
ByColOk(S, D, x) ==
    /\ Len(x.bycol) = Len(D) /\ \A j \in 1..Len(D) : x.bycol[j].name = D[j].name /\ x.bycol[j].data = D[j].data
    /\ x.shape = IF D = <<>> \/ S.entries = 0 THEN <<>> ELSE <<[names |-> [j \in 1..Len(D) |-> D[j].name], n |-> S.entries]>>
OfName(p, n) == disk[p].keys[CHOOSE j \in Found(disk[p].keys, n) : TRUE]
TreeOk(x, p, key) ==
    /\ x.name = key.name
    /\ IF ~IsTree(key) THEN x.cols = <<>> /\ x.rows = <<>>
       ELSE LET S == OfName(p, key.name)  ms == meta[<<p, key.name>>]  D == Dumped(S, ms) IN
            /\ ShownAll(x.cols, ms)
            /\ IF "bycol" \in DOMAIN x THEN ByColOk(S, D, x) ELSE RowsOk(S, D, x.rows)
TDump == /\ Is("Dump") /\ e.rc = 0 /\ e.path \in DOMAIN disk
         /\ LET K == disk[e.path].keys IN Len(e.trees) = Len(K) /\ \A j \in 1..Len(K) : TreeOk(e.trees[j], e.path, K[j])
         /\ UNCHANGED <<vars, bad, meta>>
CNext == ((RNext /\ ~Is("AllBranches")) /\ UNCHANGED meta) \/ CAll \/ TLs \/ TDump
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
