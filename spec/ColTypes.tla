------------------------------ MODULE ColTypes ------------------------------
(***************************************************************************)
(* The type a column carries in the file (a C++ type name) and the type a  *)
(* program asks for when it reads the column.  Types are terms; a type a    *)
(* program asks for stands for every C++ name of its term (strings have     *)
(* three).  A column may be read as R exactly when R stands for the         *)
(* column's C++ type; the laws checked here say that this identifies the    *)
(* type it was written with, however its strings are spelled.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Num == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
Elem == Num \cup {"bool"}
CxxElem == [i8 |-> "int8_t", u8 |-> "uint8_t", i16 |-> "int16_t", u16 |-> "uint16_t", i32 |-> "int32_t",
            u32 |-> "uint32_t", i64 |-> "int64_t", u64 |-> "uint64_t", f32 |-> "float", f64 |-> "double", bool |-> "bool"]

(* terms *)
N(e)        == [k |-> "num", e |-> e]
S           == [k |-> "str"]
V(x)        == [k |-> "vec", x |-> x]
U(x)        == [k |-> "set", x |-> x]
M(x, y)     == [k |-> "map", x |-> x, y |-> y]
A(x, n)     == [k |-> "array", x |-> x, n |-> n]
L(x)        == [k |-> "slice", x |-> x]

Nums == {N(e) : e \in Num}
Scalars == {N(e) : e \in Elem}
I16 == N("i16")
Arrays  == {A(x, n) : x \in Nums, n \in {1, 3, 10}} \cup {A(N("bool"), 3), A(I16, 17)}
Slices  == {L(x) : x \in Scalars}
Vecs    == {V(x) : x \in Scalars \cup {S}}
Vecs2   == {V(x) : x \in {V(y) : y \in {N("i32"), I16, N("f64"), N("u8"), N("bool"), S}} \cup {U(y) : y \in {N("i32"), I16, S}} \cup {V(V(I16))}}
Sets    == {U(x) : x \in {N("i32"), I16, N("u64"), N("i8"), N("u8"), N("i64"), N("bool"), S}}
Maps    == {M(x, y) : x \in {N("i32"), S},
                      y \in {I16, S, V(I16), V(S), U(I16), U(S), V(V(I16)), V(U(I16))}}
           \cup {M(N("u8"), N("u8")), M(N("u64"), N("u64")), M(N("u64"), N("f64")), M(N("u64"), V(N("u64"))), M(N("u64"), V(N("f64"))), M(S, M(S, S))}

Writable == Scalars \cup {S} \cup {V(x) : x \in Nums} \cup Arrays
Askable  == Scalars \cup {S} \cup Arrays \cup Slices \cup Vecs \cup Vecs2 \cup Sets \cup Maps
Stored   == Scalars \cup {S} \cup Arrays \cup Slices \cup Vecs \cup Vecs2 \cup Sets \cup Maps

RECURSIVE Rust(_), Cxx(_)
Rust(t) ==
    CASE t.k = "num"   -> t.e
      [] t.k = "str"   -> "String"
      [] t.k = "vec"   -> "Vec<" \o Rust(t.x) \o ">"
      [] t.k = "array" -> "[" \o Rust(t.x) \o ";" \o ToString(t.n) \o "]"
      [] t.k = "slice" -> "Slice<" \o Rust(t.x) \o ">"
      [] t.k = "set"   -> "HashSet<" \o Rust(t.x) \o ">"
      [] t.k = "map"   -> "HashMap<" \o Rust(t.x) \o "," \o Rust(t.y) \o ">"
(* every name of the type *)
Cxx(t) ==
    CASE t.k = "num"   -> {CxxElem[t.e]}
      [] t.k = "str"   -> {"char*", "string", "TString"}
      [] t.k = "vec"   -> {"vector<" \o n \o ">" : n \in Cxx(t.x)}
      [] t.k = "array" -> {n \o "[" \o ToString(t.n) \o "]" : n \in Cxx(t.x)}
      [] t.k = "slice" -> {n \o "[]" : n \in Cxx(t.x)}
      [] t.k = "set"   -> {"set<" \o n \o ">" : n \in Cxx(t.x)}
      [] t.k = "map"   -> {"map<" \o a \o "," \o b \o ">" : a \in Cxx(t.x), b \in Cxx(t.y)}

VARIABLES w, r
Init == w \in Stored /\ r \in Askable
Next == UNCHANGED <<w, r>>
Spec == Init /\ [][Next]_<<w, r>>
WInit == w \in Writable /\ r \in Askable
WSpec == WInit /\ [][Next]_<<w, r>>

(* a column's name, in whatever spelling, is a name of the type asked for exactly if that is its type *)
OneTypeEach == /\ w = r => Cxx(w) = Cxx(r)
               /\ w # r => Cxx(w) \cap Cxx(r) = {}
NamesDiffer == (Rust(w) = Rust(r)) <=> (w = r)
(* a reader that knows only one spelling of what is inside a collection would refuse columns of its own type *)
One(t) == {CHOOSE n \in Cxx(t) : TRUE}
OneSpelling == w = r => Cxx(w) \subseteq One(r)

(* for the driver: every pair, printed *)
Show == PrintT("BEHAVIOUR " \o ToJson([w |-> Rust(w), r |-> Rust(r)]))
=============================================================================
