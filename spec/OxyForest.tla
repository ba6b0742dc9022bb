----------------------------- MODULE OxyForest -----------------------------
(***************************************************************************)
(* The columns of a tree form an ordered forest.  Listing walks it with a  *)
(* stack; looking a name up walks it until the name is met, from the tree  *)
(* or from any column downwards.  Forests are built one column at a time,  *)
(* each a new top-level column or below the column added last or one of    *)
(* those above that: so column numbers are positions in the listing.       *)
(***************************************************************************)
EXTENDS Store, SequencesExt, TLC, Json
CONSTANTS MaxNodes, Names, Absent, Breadth, Gen
VARIABLES par, nm, ph, stack, out, ask, hit
fvars == <<par, nm, ph, stack, out, ask, hit>>

N == Len(par)
RECURSIVE Up(_)
Up(j) == IF j = 0 THEN {0} ELSE {j} \cup Up(par[j])         \* the column and those above it, 0 = the tree
Kids(j) == SetToSortSeq({k \in 1..N : par[k] = j}, <)
Below(j) == {k \in 1..N : j \in Up(k) \ {k}}

FInit == par = <<>> /\ nm = <<>> /\ ph = "build" /\ stack = <<>> /\ out = <<>> /\ ask = <<>> /\ hit = 0
Add(p, x) == /\ ph = "build" /\ N < MaxNodes /\ p \in Up(N) /\ par' = Append(par, p) /\ nm' = Append(nm, x)
             /\ UNCHANGED <<ph, stack, out, ask, hit>>
Built == /\ ph = "build" /\ ph' = "list" /\ stack' = Kids(0) /\ UNCHANGED <<par, nm, out, ask, hit>>
         /\ (~Gen \/ PrintT("BEHAVIOUR " \o ToJson([par |-> par, nm |-> nm])))
Push(j, rest) == IF Breadth THEN rest \o Kids(j) ELSE Kids(j) \o rest
Visit == /\ ~Gen /\ ph = "list" /\ stack # <<>> /\ out' = Append(out, Head(stack)) /\ stack' = Push(Head(stack), Tail(stack))
         /\ UNCHANGED <<par, nm, ph, ask, hit>>
Listed == /\ ~Gen /\ ph = "list" /\ stack = <<>> /\ ph' = "ready" /\ UNCHANGED <<par, nm, stack, out, ask, hit>>
Ask(j, x) == /\ ph = "ready" /\ j <= N /\ ph' = "find" /\ ask' = <<j, x>> /\ stack' = Kids(j) /\ UNCHANGED <<par, nm, out, hit>>
Look == /\ ph = "find" /\ stack # <<>>
        /\ IF nm[Head(stack)] = ask[2] THEN hit' = Head(stack) /\ ph' = "found" /\ UNCHANGED stack
           ELSE stack' = Push(Head(stack), Tail(stack)) /\ UNCHANGED <<hit, ph>>
        /\ UNCHANGED <<par, nm, out, ask>>
Miss == ph = "find" /\ stack = <<>> /\ ph' = "missing" /\ UNCHANGED <<par, nm, stack, out, ask, hit>>
FNext == \/ \E p \in 0..MaxNodes, x \in Names : Add(p, x)
         \/ Built \/ Visit \/ Listed
         \/ \E j \in 0..MaxNodes, x \in Names \cup {Absent} : Ask(j, x)
         \/ Look \/ Miss
FSpec == FInit /\ [][FNext]_fvars

(* what the listing must be, said without saying how *)
Over == ph \in {"ready", "find", "found", "missing"}
EachOnce == Over => Len(out) = N /\ {out[j] : j \in 1..Len(out)} = 1..N
At(k) == CHOOSE j \in 1..Len(out) : out[j] = k
ParentsFirst == Over => \A k \in 1..N : par[k] # 0 => At(par[k]) < At(k)
SiblingsInOrder == Over => \A k, m \in 1..N : (par[k] = par[m] /\ k < m) => At(k) < At(m)
Together == Over => \A k \in 1..N : {out[j] : j \in At(k)+1..At(k)+Cardinality(Below(k))} = Below(k)
(* and these four leave one order only *)
OneOrder == Over /\ N > 0 => out = [j \in 1..N |-> j]
FirstFound ==
    /\ ph = "found" => /\ hit \in Below(ask[1]) /\ nm[hit] = ask[2]
                       /\ \A k \in Below(ask[1]) : nm[k] = ask[2] => At(hit) <= At(k)
    /\ ph = "missing" => \A k \in Below(ask[1]) : nm[k] # ask[2]
=============================================================================
