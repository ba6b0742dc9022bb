----------------------------- MODULE OxyNames -----------------------------
(***************************************************************************)
(* Which column a field of a struct belongs to.                            *)
(* A struct is [pre, fields], a field [id, ren, pre, abs, ty, sub]: its    *)
(* name, the replacement, the prefix and the absolute name it is given     *)
(* (empty: none), and its type, or the struct it is (a one-element         *)
(* sequence).                                                              *)
(***************************************************************************)
EXTENDS Store, TLC, Json

Or(a, b) == IF a # "" THEN a ELSE b
(* one rule for every field: where it stands among the others does not matter *)
NameOf(parent, S, f) ==
    IF f.abs # "" THEN f.pre \o f.abs
    ELSE (IF parent = "" THEN "" ELSE parent \o ".") \o Or(f.pre, S.pre) \o Or(f.ren, f.id)

(* the columns of a struct, in order: [name, ty] of every plain field *)
RECURSIVE Columns(_, _)
Columns(parent, S) ==
    FoldLeft(LAMBDA acc, f : acc \o (IF f.sub = <<>> THEN <<[name |-> NameOf(parent, S, f), ty |-> f.ty]>>
                                     ELSE Columns(NameOf(parent, S, f), f.sub[1])), <<>>, S.fields)

----------------------------------------------------------------------------
(* small structs, all of them *)
CONSTANTS Pres, Rens, Lpres, Abss
Fields(id, ty, sub) == {[id |-> id, ren |-> r, pre |-> p, abs |-> a, ty |-> ty, sub |-> sub] : r \in Rens, p \in Lpres, a \in Abss}
Leaves(id) == Fields(id, "i32", <<>>)
Str(p, fs) == [pre |-> p, fields |-> fs]
One1 == {Str(p, <<f>>) : p \in Pres, f \in Leaves("a")}
Nest1 == {Str(p, <<f>>) : p \in Pres, f \in UNION {Fields("s", "", <<x>>) : x \in One1}}
(* a plain field before or after, on the same level or inside *)
Plain(id) == [id |-> id, ren |-> "", pre |-> "", abs |-> "", ty |-> "i32", sub |-> <<>>]
Pairs == {Str(p, <<f, Plain("z")>>) : p \in Pres, f \in Leaves("a")} \cup {Str(p, <<Plain("z"), f>>) : p \in Pres, f \in Leaves("a")}
         \cup {Str(p, <<Plain("z"), f>>) : p \in Pres, f \in UNION {Fields("s", "", <<x>>) : x \in {y \in One1 : y.fields[1].ren = ""}}}
(* three levels *)
F3(id, ty, sub, ps, as) == {[id |-> id, ren |-> "", pre |-> p, abs |-> a, ty |-> ty, sub |-> sub] : p \in ps, a \in as}
Low3 == {Str("", <<f>>) : f \in F3("a", "i32", <<>>, {""}, Abss)}
Mid3 == {Str(p, <<f, Plain("z")>>) : p \in Pres, f \in UNION {F3("t", "", <<x>>, Lpres, {""}) : x \in Low3}}
Deep3 == {Str(p, <<f>>) : p \in Pres, f \in UNION {F3("s", "", <<x>>, {""}, Abss) : x \in Mid3}}
(* a list of parts: every column holds lists *)
PlainL == [id |-> "z", ren |-> "", pre |-> "", abs |-> "", ty |-> "Slice<i32>", sub |-> <<>>]
InList == {Str(p, IF p = "" THEN <<f, PlainL>> ELSE <<PlainL, f>>) : p \in Pres, f \in Fields("a", "Slice<i32>", <<>>)}
Lists == {Str(p, <<f>>) : p \in Pres, f \in {g @@ [slic |-> TRUE] : g \in UNION {Fields("v", "", <<x>>) : x \in InList}}}
Shapes == One1 \cup Nest1 \cup Pairs \cup Deep3 \cup Lists

VARIABLE shape
NInit == shape \in Shapes
NNext == FALSE /\ UNCHANGED shape
NSpec == NInit /\ [][NNext]_shape
Say == PrintT("BEHAVIOUR " \o ToJson([shape |-> shape, cols |-> Columns("", shape)]))

(* a field alone in the same struct belongs to the same column *)
Position == \A j \in 1..Len(shape.fields) :
                LET alone == Columns("", Str(shape.pre, <<shape.fields[j]>>)) IN
                \A q \in 1..Len(alone) : \E r \in 1..Len(Columns("", shape)) : Columns("", shape)[r] = alone[q]
(* an absolute name ignores what encloses the field *)
Absolute == \A j \in 1..Len(shape.fields) :
                LET f == shape.fields[j] IN
                (f.abs # "" /\ f.sub = <<>>) => \A up \in {"", "x", "x.y"}, p \in Pres : NameOf(up, Str(p, <<>>), f) = f.pre \o f.abs
(* a field without absolute name lies in different columns in different parts *)
Apart == \A j \in 1..Len(shape.fields) :
             LET f == shape.fields[j] IN
             f.abs = "" => NameOf("p", shape, f) # NameOf("q", shape, f) /\ NameOf("p", shape, f) # NameOf("", shape, f)
=============================================================================
