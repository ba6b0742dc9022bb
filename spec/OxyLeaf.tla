------------------------------ MODULE OxyLeaf ------------------------------
(***************************************************************************)
(* What a column records about its own entries, for other programs: the    *)
(* class of its leaf, the bytes and the sign of a value, the number of     *)
(* values in an entry, the name of its collection.  Describe is how a       *)
(* column of a type is described; Understand is a reader that knows nothing *)
(* but the description.  A reader finds an entry of a column without entry  *)
(* offsets by counting bytes, so the bytes of an entry follow from the      *)
(* description alone, and have to be those in the baskets.                 *)
(*                                                                          *)
(* A type: [k |-> "num" | "array" | "str" | "vec", e |-> element, n |-> length] *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LNum == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
LElem == LNum \cup {"bool"}
LWidth == [i8 |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8, f32 |-> 4, f64 |-> 8, bool |-> 1]
LeafOf == [i8 |-> "TLeafB", u8 |-> "TLeafB", i16 |-> "TLeafS", u16 |-> "TLeafS", i32 |-> "TLeafI", u32 |-> "TLeafI",
           i64 |-> "TLeafL", u64 |-> "TLeafL", f32 |-> "TLeafF", f64 |-> "TLeafD", bool |-> "TLeafO"]
CodeOf == [i8 |-> "B", u8 |-> "b", i16 |-> "S", u16 |-> "s", i32 |-> "I", u32 |-> "i", i64 |-> "L", u64 |-> "l", f32 |-> "F", f64 |-> "D"]
Unsigned == {"u8", "u16", "u32", "u64"}
CollOf == [i8 |-> {"int8_t", "char"}, u8 |-> {"uint8_t", "unsigned char"}, i16 |-> {"int16_t", "short"}, u16 |-> {"uint16_t", "unsigned short"},
           i32 |-> {"int32_t", "int"}, u32 |-> {"uint32_t", "unsigned int"}, i64 |-> {"int64_t", "long", "Long64_t"},
           u64 |-> {"uint64_t", "unsigned long", "ULong64_t"}, f32 |-> {"float"}, f64 |-> {"double"}]

Ty(k, e, n) == [k |-> k, e |-> e, n |-> n]
Varies(t) == t.k \in {"str", "vec"}
EntryWidth(t) == IF t.k = "array" THEN LWidth[t.e] * t.n ELSE LWidth[t.e]

(* dims: the lengths in brackets behind the leaf's name; code: what the column's title ends in *)
D(bcls, lcls, uns, size, len, dims, coll, code, offs) ==
    [bcls |-> bcls, lcls |-> lcls, uns |-> uns, size |-> size, len |-> len, dims |-> dims, coll |-> coll, code |-> code, offs |-> offs]
Code(e) == IF e = "bool" THEN "" ELSE CodeOf[e]
Describe(t) ==
    CASE t.k = "num"   -> D("TBranch", LeafOf[t.e], t.e \in Unsigned, LWidth[t.e], 1, <<>>, "", Code(t.e), FALSE)
      [] t.k = "array" -> D("TBranch", LeafOf[t.e], t.e \in Unsigned, LWidth[t.e], t.n, <<t.n>>, "", Code(t.e), FALSE)
      [] t.k = "str"   -> D("TBranch", "TLeafC", FALSE, 1, 1, <<>>, "", "", TRUE)
      [] t.k = "vec"   -> D("TBranchElement", "TLeafElement", FALSE, 0, 1, <<>>, "vector<" \o (CHOOSE c \in CollOf[t.e] : TRUE) \o ">", "", TRUE)

NoType == Ty("none", "", 0)
ElemsOf(d) == {e \in LElem : LeafOf[e] = d.lcls /\ (e \in Unsigned) = d.uns /\ LWidth[e] = d.size /\ (e # "bool" => d.code = CodeOf[e])}
ItemsOf(d) == {e \in LNum : \E c \in CollOf[e] : d.coll = "vector<" \o c \o ">"}
Understand(d) ==
    IF d.bcls = "TBranchElement"
    THEN IF d.lcls = "TLeafElement" /\ d.offs /\ d.len = 1 /\ d.dims = <<>> /\ ItemsOf(d) # {} THEN Ty("vec", CHOOSE e \in ItemsOf(d) : TRUE, 0) ELSE NoType
    ELSE IF d.lcls = "TLeafC" THEN (IF d.offs /\ d.dims = <<>> /\ d.coll = "" THEN Ty("str", "", 0) ELSE NoType)
    ELSE IF d.offs \/ d.coll # "" \/ ElemsOf(d) = {} THEN NoType
    ELSE IF d.dims = <<>> THEN (IF d.len = 1 THEN Ty("num", CHOOSE e \in ElemsOf(d) : TRUE, 0) ELSE NoType)
    ELSE IF Len(d.dims) = 1 /\ d.dims[1] = d.len THEN Ty("array", CHOOSE e \in ElemsOf(d) : TRUE, d.len) ELSE NoType
(* the bytes of an entry of a column without entry offsets *)
BytesBy(d) == d.size * d.len
=============================================================================
