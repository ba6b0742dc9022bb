------------------------------ MODULE OxySelf ------------------------------
(***************************************************************************)
(* A reader that knows a record only by the class descriptions kept in the *)
(* same file: it goes through the members in the order described, each as  *)
(* wide as its kind says, arrays as long as the member that counts them,    *)
(* parts and objects between their own headers.  The record can be read    *)
(* when every object ends where its header says and nothing is left over.  *)
(*                                                                         *)
(* A description: [name, ver, els]; an element: [k, n, code, cls, ver, cnt]: *)
(*   k = "base" (part of class cls), "basic" (kind code), "ptr" (cnt many    *)
(*   of kind code), "string", "any" (an object of class cls, in place),     *)
(*   "objptr" (an object or none), "stl" (a collection of kind code)        *)
(* A few classes have no description, being the ground of the format:       *)
(* TObject, TString, the arrays of objects and of numbers, the leaves, and  *)
(* what an element column adds to a column.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES stack, pos, objs, mem, found
svars == <<stack, pos, objs, mem, found>>

Size(code) == CASE code \in {1, 11, 18} -> 1 [] code \in {2, 12} -> 2 [] code \in {3, 5, 6, 13, 15} -> 4
                [] code \in {4, 8, 14, 16, 17} -> 8 [] OTHER -> -1

None == [x \in {} |-> 0]
Frame(k, cls, d, left, end) == [k |-> k, cls |-> cls, d |-> d, i |-> 1, left |-> left, end |-> end, part |-> FALSE, mem |-> None]
Top == stack[Len(stack)]
SInit == stack = <<>> /\ pos = 0 /\ objs = {} /\ mem = None /\ found = <<>>

El(k, cls, ver) == [k |-> k, n |-> cls, code |-> 0, cls |-> cls, ver |-> ver, cnt |-> ""]
NoEl == El("end", "", 0)
Left(fr, Descs) == CASE fr.k = "class" -> Len(Descs[fr.d].els) - fr.i + 1
                     [] fr.k = "extended" -> 3 - fr.i
                     [] OTHER -> fr.left - fr.i + 1
(* what is due in a frame *)
Due(fr, Descs) ==
    IF Left(fr, Descs) <= 0 THEN NoEl
    ELSE CASE fr.k = "class" -> Descs[fr.d].els[fr.i]
           [] fr.k = "items" -> El("objptr", "", 0)
           [] fr.k = "object" -> El("any", fr.cls, -1)
           [] fr.k = "extended" -> IF fr.i = 1 THEN El("base", "TBranch", -1) ELSE El("rest", "", 0)
D(Descs) == Due(Top, Descs)

Moved(e) == pos = e.at /\ e.to >= e.at /\ pos' = e.to
Ahead(st) == [st EXCEPT ![Len(st)].i = @ + 1]
Stay == stack' = Ahead(stack)
Kept(n, v) == stack' = [Ahead(stack) EXCEPT ![Len(stack)].mem = (n :> v) @@ @]

(* ------------- objects with a description *)
Ground == {"TBranchElement"}
Begins(e, Descs, outer) ==       \* the frame of an object whose header is at e.at
    /\ e.end >= e.to
    /\ IF e.cls \in Ground
       THEN stack' = Append(outer, [Frame("extended", e.cls, 0, 0, e.end) EXCEPT !.part = FALSE])
       ELSE \E d \in 1..Len(Descs) :
                /\ Descs[d].name = e.cls
                (* a class of no version is known by its checksum *)
                /\ e.to - e.at = (IF e.ver = 0 /\ e.sum # "" THEN 10 ELSE 6)
                /\ IF e.ver = 0 /\ e.sum # "" THEN e.sum = Descs[d].sum ELSE e.ver = Descs[d].ver
                /\ stack' = Append(outer, [Frame("class", e.cls, d, 0, e.end) EXCEPT !.part = e.part])
Begin(e, Descs) ==
    /\ Moved(e) /\ UNCHANGED <<objs, mem, found>>
    /\ IF stack = <<>> THEN Begins(e, Descs, <<>>)
       ELSE LET d == D(Descs) IN
            /\ d.k \in {"base", "any"} /\ d.cls = e.cls /\ e.part = (d.k = "base")
            /\ d.k = "base" /\ d.ver >= 0 => e.ver = d.ver
            /\ Begins(e, Descs, Ahead(stack))
(* its members belong to the whole it is a part of; other objects are told apart *)
Leave(e, Descs, Tell(_, _)) ==
    /\ stack # <<>> /\ pos = e.at /\ pos = Top.end /\ D(Descs).k = "end"
    /\ LET below == SubSeq(stack, 1, Len(stack) - 1) IN
       IF Top.k = "items" THEN /\ stack' = [below EXCEPT ![Len(below)].mem = (Top.cls :> Top.mem["objs"]) @@ @] /\ UNCHANGED <<mem, found>>
       ELSE IF Top.part THEN /\ stack' = [below EXCEPT ![Len(below)].mem = Top.mem @@ @] /\ UNCHANGED <<mem, found>>
       ELSE /\ stack' = below
            /\ found' = Tell(found, Top)
            /\ mem' = IF below = <<>> THEN Top.mem ELSE mem
    /\ UNCHANGED <<pos, objs>>

(* ------------- members *)
Basic(e, Descs) == LET d == D(Descs) IN
    /\ stack # <<>> /\ d.k = "basic" /\ d.n = e.n /\ Moved(e) /\ Size(d.code) > 0 /\ e.to = e.at + Size(d.code)
    /\ Kept(e.n, e.v) /\ UNCHANGED <<objs, mem, found>>
Pointed(e, Descs) == LET d == D(Descs) IN
    /\ stack # <<>> /\ d.k = "ptr" /\ d.n = e.n /\ Moved(e)
    /\ d.cnt \in DOMAIN Top.mem /\ Size(d.code) > 0
    /\ e.to = e.at + 1 + Top.mem[d.cnt] * Size(d.code) /\ Len(e.vs) = Top.mem[d.cnt]
    /\ Kept(e.n, e.vs) /\ UNCHANGED <<objs, mem, found>>
Text(e, Descs) == LET d == D(Descs) IN
    /\ stack # <<>> /\ d.k = "string" /\ d.n = e.n /\ Moved(e) /\ e.to = e.at + e.len + (IF e.len < 255 THEN 1 ELSE 5)
    /\ Kept(e.n, e.v) /\ UNCHANGED <<objs, mem, found>>
(* ------------- the ground *)
TObject(e, Descs) == LET d == D(Descs) IN
    /\ stack # <<>> /\ d.k = "base" /\ d.cls = "TObject" /\ Moved(e) /\ e.to = e.at + 10 /\ Stay /\ UNCHANGED <<objs, mem, found>>
Numbers(e, Descs) == LET d == D(Descs) IN
    /\ stack # <<>> /\ d.k = "any" /\ d.n = e.n /\ d.cls \in {"TArrayD", "TArrayI"} /\ Moved(e)
    /\ e.to = e.at + 4 + e.len * (IF d.cls = "TArrayD" THEN 8 ELSE 4) /\ Stay /\ UNCHANGED <<objs, mem, found>>
Items(e, Descs) == LET d == D(Descs) IN       \* an array of objects: its header, then the objects
    /\ stack # <<>> /\ d.k = "any" /\ d.n = e.n /\ d.cls = "TObjArray" /\ Moved(e) /\ e.to = e.at + 6 + 10 + 1 + 4 + 4 /\ e.low = 0
    /\ stack' = Append(Ahead(stack), [Frame("items", e.n, 0, e.len, e.end) EXCEPT !.mem = ("objs" :> <<>>)]) /\ UNCHANGED <<objs, mem, found>>
(* which objects an array holds is known by where they lie *)
Holding(st, o) == IF st[Len(st)].k = "items" THEN [st EXCEPT ![Len(st)].mem["objs"] = Append(@, o)] ELSE st
Nothing(e, Descs) == stack # <<>> /\ D(Descs).k = "objptr" /\ Moved(e) /\ e.to = e.at + 4 /\ Stay /\ UNCHANGED <<objs, mem, found>>
Again(e, Descs)   == stack # <<>> /\ D(Descs).k = "objptr" /\ Moved(e) /\ e.to \in {e.at + 4, e.at + 8} /\ e.of \in objs /\ stack' = Holding(Ahead(stack), e.of) /\ UNCHANGED <<objs, mem, found>>
Whole(e, Descs)   == \* an object on its own: count, class, then the object
    /\ stack # <<>> /\ D(Descs).k = "objptr" /\ Moved(e) /\ e.at \notin objs
    /\ stack' = Append(Holding(Ahead(stack), e.at), Frame("object", e.cls, 0, 1, e.end))
    /\ objs' = objs \cup {e.at} /\ UNCHANGED <<mem, found>>
Leaf(e, Descs)    == \* leaves and the rest of an element column are bytes between their limits
    /\ stack # <<>> /\ Moved(e)
    /\ \/ D(Descs).k = "any" /\ Top.k = "object" /\ e.leaf /\ D(Descs).cls = e.cls
       \/ D(Descs).k = "rest" /\ ~e.leaf
    /\ e.to = Top.end /\ Stay /\ UNCHANGED <<objs, mem, found>>
=============================================================================
