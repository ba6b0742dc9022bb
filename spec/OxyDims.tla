------------------------------ MODULE OxyDims -------------------------------
(***************************************************************************)
(* Types of array columns.  The title of a leaf is its name and its         *)
(* dimensions, each a number or the name of another column that tells, per  *)
(* entry, how many there are.  The reader takes the title apart from left   *)
(* to right and names the type after the number of elements of an entry, or *)
(* leaves the number open.  Checked: a number in the type is the number of  *)
(* elements of every entry, whatever the other column says; and if it is    *)
(* left open, there are entries of different numbers.  Names may have        *)
(* brackets of their own: dimensions are what follows the name.              *)
(* MODE = "all" every dimension counts; "first" the first fixed one; "last" *)
(* the last one; "named" brackets of the name are taken for dimensions       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MODE, SIZES, MAXD, COUNTS
Counted == 0       \* a dimension given by another column
VARIABLES dims, rest, n, var, found, phase, k,
          own    \* what the name has in brackets
vars == <<dims, rest, n, var, found, phase, k, own>>
Own == { <<>>, <<2>>, <<Counted>>, <<3, 2>> }

Init == dims = <<>> /\ rest = <<>> /\ n = 0 /\ var = FALSE /\ found = FALSE /\ phase = "title" /\ k = 1 /\ own \in Own
AddDim(d) == /\ phase = "title" /\ Len(dims) < MAXD /\ dims' = Append(dims, d) /\ UNCHANGED <<rest, n, var, found, phase, k, own>>
Titled == phase = "title" /\ phase' = "read" /\ rest' = (IF MODE = "named" THEN own \o dims ELSE dims) /\ n' = 1 /\ UNCHANGED <<dims, var, found, k, own>>
TakeFixed == /\ phase = "read" /\ rest # <<>> /\ Head(rest) # Counted
             /\ n' = (IF MODE = "all" THEN n * Head(rest) ELSE IF MODE = "first" /\ found THEN n ELSE Head(rest))
             /\ found' = TRUE /\ rest' = Tail(rest) /\ UNCHANGED <<dims, var, phase, k, own>>
TakeCounted == /\ phase = "read" /\ rest # <<>> /\ Head(rest) = Counted
               /\ var' = (MODE = "all" \/ ~found) /\ found' = (MODE = "all" \/ found)
               /\ rest' = Tail(rest) /\ UNCHANGED <<dims, n, phase, k, own>>
Taken == phase = "read" /\ rest = <<>> /\ phase' = "entry" /\ UNCHANGED <<dims, rest, n, var, found, k, own>>
Entry(c) == phase = "entry" /\ k' = c /\ phase' = "entry" /\ UNCHANGED <<dims, rest, n, var, found, own>>
Next == (\E d \in SIZES : AddDim(d)) \/ Titled \/ TakeFixed \/ TakeCounted \/ Taken \/ (\E c \in COUNTS : Entry(c))
Spec == Init /\ [][Next]_vars

RECURSIVE Prod(_, _)
Prod(d, c) == IF d = <<>> THEN 1 ELSE (IF Head(d) = Counted THEN c ELSE Head(d)) * Prod(Tail(d), c)
Open == var    \* number left open
NumberIsEntry == phase = "entry" /\ ~Open => n = Prod(dims, k)
OpenIfVaries  == phase = "entry" /\ Open => \E c \in COUNTS : Prod(dims, c) # Prod(dims, 1)

(* ---------------- for the driver: leaves of every kind *)
Kinds == { [leaf |-> "TLeafB", u |-> 0, lt |-> 0, c |-> "int8_t", r |-> "i8"], [leaf |-> "TLeafB", u |-> 1, lt |-> 0, c |-> "uint8_t", r |-> "u8"],
           [leaf |-> "TLeafS", u |-> 0, lt |-> 0, c |-> "int16_t", r |-> "i16"], [leaf |-> "TLeafS", u |-> 1, lt |-> 0, c |-> "uint16_t", r |-> "u16"],
           [leaf |-> "TLeafI", u |-> 0, lt |-> 0, c |-> "int32_t", r |-> "i32"], [leaf |-> "TLeafI", u |-> 1, lt |-> 0, c |-> "uint32_t", r |-> "u32"],
           [leaf |-> "TLeafL", u |-> 0, lt |-> 0, c |-> "int64_t", r |-> "i64"], [leaf |-> "TLeafL", u |-> 1, lt |-> 0, c |-> "uint64_t", r |-> "u64"],
           [leaf |-> "TLeafF", u |-> 0, lt |-> 0, c |-> "float", r |-> "f32"], [leaf |-> "TLeafD", u |-> 0, lt |-> 0, c |-> "double", r |-> "f64"],
           [leaf |-> "TLeafO", u |-> 0, lt |-> 0, c |-> "bool", r |-> "bool"] }
         \cup { [leaf |-> "TLeafElement", u |-> 0, lt |-> x[1], c |-> x[2], r |-> x[3]] :
                x \in { <<1, "int8_t", "i8">>, <<2, "int16_t", "i16">>, <<3, "int32_t", "i32">>, <<4, "int64_t", "i64">>, <<5, "float", "f32">>,
                        <<6, "uint32_t", "u32">>, <<8, "double", "f64">>, <<11, "uint8_t", "u8">>, <<12, "uint16_t", "u16">>, <<13, "uint32_t", "u32">>,
                        <<14, "uint64_t", "u64">>, <<15, "uint32_t", "u32">>, <<16, "int64_t", "i64">>, <<17, "uint64_t", "u64">>, <<18, "bool", "bool">> } }
Number == ToString(Prod(dims, 1))
HasOpen == \E i \in 1..Len(dims) : dims[i] = Counted
Name(x)   == IF dims = <<>> THEN x.c ELSE IF HasOpen THEN x.c \o "[]" ELSE x.c \o "[" \o Number \o "]"
Interp(x) == IF dims = <<>> THEN x.r ELSE IF HasOpen THEN "Slice<" \o x.r \o ">" ELSE "[" \o x.r \o ";" \o Number \o "]"
EmitDims == /\ phase = "title" /\ phase' = "end" /\ UNCHANGED <<dims, rest, n, var, found, k, own>>
            /\ \A x \in Kinds : PrintT("BEHAVIOUR " \o ToJson([kind |-> x, own |-> own, dims |-> dims, canon |-> Name(x), rust |-> Interp(x)]))
GenSpec == Init /\ [][(\E d \in SIZES : AddDim(d)) \/ EmitDims]_vars
=============================================================================
