----------------------------- MODULE MCOxyLeaf -----------------------------
(* Every type a program can write, described and understood again; KEEP: what the description keeps. *)
EXTENDS OxyLeaf, TLC
CONSTANTS KEEP, LENS
VARIABLES t, d, phase
lvars == <<t, d, phase>>

Types == {Ty("num", e, 0) : e \in LElem} \cup {Ty("array", e, n) : e \in LElem, n \in LENS} \cup {Ty("str", "", 0)} \cup {Ty("vec", e, 0) : e \in LNum}
(* the collection's name may be spelled in several ways *)
Spelled(x) == IF x.k = "vec" THEN {[Describe(x) EXCEPT !.coll = "vector<" \o c \o ">"] : c \in CollOf[x.e]} ELSE {Describe(x)}
Lose(x) == [x EXCEPT !.uns = IF "sign" \in KEEP THEN @ ELSE FALSE, !.code = IF "code" \in KEEP THEN @ ELSE "",
                     !.dims = IF "dims" \in KEEP THEN @ ELSE <<>>, !.offs = IF "offsets" \in KEEP THEN @ ELSE FALSE]
Init == t \in Types /\ d = Describe(Ty("num", "i8", 0)) /\ phase = "new"
Record == phase = "new" /\ phase' = "kept" /\ \E x \in Spelled(t) : d' = Lose(x) /\ t' = t
Next == Record
Spec == Init /\ [][Next]_lvars

Understood == phase = "kept" => Understand(d) = t
BytesFollow == phase = "kept" /\ ~Varies(t) => BytesBy(d) = EntryWidth(t)
(* nothing that is no description of a type is taken for one *)
OnlyThat == \A x \in Types : phase = "kept" /\ x # t => Understand(d) # x
=============================================================================
