---------------------------- MODULE OxyTypesTrace ---------------------------
(***************************************************************************)
(* The names the real library gives the types of columns, against what the *)
(* columns are (File event: canon, rust).  They are the same each time the *)
(* tree is opened and by every way to a column.                            *)
(***************************************************************************)
EXTENDS OxyReadTrace
(* columns of the library's own: the type they were written with *)
Base == [i8 |-> "int8_t", u8 |-> "uint8_t", i16 |-> "int16_t", u16 |-> "uint16_t", i32 |-> "int32_t", u32 |-> "uint32_t",
         i64 |-> "int64_t", u64 |-> "uint64_t", f32 |-> "float", f64 |-> "double", bool |-> "bool", String |-> "char*"]
OwnTypes == UNION { {<<x, Base[x]>>, <<"Vec<" \o x \o ">", "vector<" \o Base[x] \o ">">>}
                    \cup {<<"[" \o x \o ";" \o ToString(n) \o "]", Base[x] \o "[" \o ToString(n) \o "]">> : n \in {1, 3, 10, 17}} : x \in DOMAIN Base }
Known(c) == IF "canon" \in DOMAIN c THEN [canon |-> c.canon, rust |-> c.rust]
            ELSE [canon |-> (CHOOSE p \in OwnTypes : p[1] = c.ty)[2], rust |-> c.ty]
TypesOf(S, bs) == /\ Len(bs) = Len(S.cols)
                  /\ \A j \in 1..Len(bs) : LET k == Known(S.cols[j]) IN
                        bs[j].name = S.cols[j].name /\ bs[j].ty = k.canon /\ bs[j].interp = k.rust
NGet == RGet /\ (Is("Get") /\ e.res = "ok" => TypesOf(rt'[e.rt], e.branches))
NAll == Is("AllBranches") /\ e.rt \in DOMAIN rt /\ TypesOf(rt[e.rt], e.branches) /\ Stay /\ UNCHANGED bad
NTypes == (RNext /\ ~Is("Get")) \/ NGet \/ NAll
NSpec == RInit /\ [][NTypes]_rvars
=============================================================================
