------------------------------ MODULE OxyTypes ------------------------------
(***************************************************************************)
(* Names of types.  A file gives the type of an element column as text,    *)
(* with one of several spellings of every basic type and two styles of     *)
(* spacing.  A writer derives such a text from a grammar (stack of things   *)
(* still to be written); with it goes what the type really is: its normal   *)
(* name and its Rust interpretation.  A reader then walks over the words of *)
(* the text and normalises them; the words of a basic type of several       *)
(* words are collected before they are named.  Checked: whatever was        *)
(* derived, the reader finds the normal name, normal names are their own    *)
(* normal names, and types that differ have different normal names.         *)
(*                                                                          *)
(* MODE = "words"  the words of one type are taken together (the design)    *)
(*        "single" every word is named on its own                           *)
(*        "inside" names are also replaced inside longer words              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MODE, DEPTH, SPELL, CONTAINERS, STYLES
VARIABLES todo, words, text, canon, rust, phase, pend, out
vars == <<todo, words, text, canon, rust, phase, pend, out>>

(* ---------------- basic types: the words that may name them, normal name, interpretation *)
B(w, c, r) == [w |-> w, c |-> c, r |-> r]
Arith == {
    B(<<"char">>, "int8_t", "i8"), B(<<"signed", "char">>, "int8_t", "i8"), B(<<"Char_t">>, "int8_t", "i8"), B(<<"int8_t">>, "int8_t", "i8"),
    B(<<"unsigned", "char">>, "uint8_t", "u8"), B(<<"UChar_t">>, "uint8_t", "u8"), B(<<"uint8_t">>, "uint8_t", "u8"),
    B(<<"short">>, "int16_t", "i16"), B(<<"short", "int">>, "int16_t", "i16"), B(<<"signed", "short">>, "int16_t", "i16"),
    B(<<"Short_t">>, "int16_t", "i16"), B(<<"int16_t">>, "int16_t", "i16"),
    B(<<"unsigned", "short">>, "uint16_t", "u16"), B(<<"unsigned", "short", "int">>, "uint16_t", "u16"), B(<<"UShort_t">>, "uint16_t", "u16"),
    B(<<"uint16_t">>, "uint16_t", "u16"),
    B(<<"int">>, "int32_t", "i32"), B(<<"signed", "int">>, "int32_t", "i32"), B(<<"Int_t">>, "int32_t", "i32"), B(<<"int32_t">>, "int32_t", "i32"),
    B(<<"unsigned">>, "uint32_t", "u32"), B(<<"unsigned", "int">>, "uint32_t", "u32"), B(<<"UInt_t">>, "uint32_t", "u32"), B(<<"uint32_t">>, "uint32_t", "u32"),
    B(<<"long">>, "int64_t", "i64"), B(<<"long", "long">>, "int64_t", "i64"), B(<<"long", "int">>, "int64_t", "i64"),
    B(<<"long", "long", "int">>, "int64_t", "i64"), B(<<"Long64_t">>, "int64_t", "i64"), B(<<"Long_t">>, "int64_t", "i64"), B(<<"int64_t">>, "int64_t", "i64"),
    B(<<"unsigned", "long">>, "uint64_t", "u64"), B(<<"unsigned", "long", "long">>, "uint64_t", "u64"), B(<<"unsigned", "long", "int">>, "uint64_t", "u64"),
    B(<<"unsigned", "long", "long", "int">>, "uint64_t", "u64"), B(<<"ULong64_t">>, "uint64_t", "u64"), B(<<"ULong_t">>, "uint64_t", "u64"),
    B(<<"uint64_t">>, "uint64_t", "u64"),
    B(<<"float">>, "float", "f32"), B(<<"Float_t">>, "float", "f32"), B(<<"double">>, "double", "f64"), B(<<"Double_t">>, "double", "f64"),
    B(<<"bool">>, "bool", "bool"), B(<<"Bool_t">>, "bool", "bool"), B(<<"string">>, "string", "String"), B(<<"TString">>, "TString", "TString") }
(* classes a user has: their names are their own, whatever they contain *)
Own == {"Offset", "Bitmap", "longitude", "Printout", "myset", "int_like", "unsignedThing", "MyString", "vectors", "Point", "Track2", "short2", "stringy", "xint"}
User == {B(<<x>>, x, x) : x \in Own}

(* ---------------- deriving *)
Cont == [vector |-> 1, set |-> 1, map |-> 2, list |-> 1, unordered_set |-> 1, pair |-> 2]
ContRust == [vector |-> "Vec", set |-> "HashSet", map |-> "HashMap", list |-> "list", unordered_set |-> "unordered_set", pair |-> "pair"]
TypeAt(d) == [s |-> "type", d |-> d]
Sign(x, sp) == [s |-> "sign", x |-> x, sp |-> sp]

RECURSIVE Joined(_)
Joined(w) == IF Len(w) = 1 THEN w[1] ELSE w[1] \o " " \o Joined(Tail(w))

Basics == {b \in Arith \cup User : "all" \in SPELL \/ Joined(b.w) \in SPELL}

Init == /\ todo = <<TypeAt(DEPTH)>> /\ words = <<>> /\ text = "" /\ canon = "" /\ rust = ""
        /\ phase = "write" /\ pend = <<>> /\ out = ""

Basic(b) == /\ phase = "write" /\ todo # <<>> /\ Head(todo).s = "type"
            /\ todo' = Tail(todo) /\ words' = words \o b.w /\ text' = text \o Joined(b.w) /\ canon' = canon \o b.c /\ rust' = rust \o b.r
            /\ UNCHANGED <<phase, pend, out>>

(* style 1: "vector<vector<int> >" and "map<int,int>"; style 2: no spaces; style 3: spaces around every sign *)
Open(k, st) ==
    /\ phase = "write" /\ todo # <<>> /\ Head(todo).s = "type" /\ Head(todo).d > 0
    /\ LET d == Head(todo).d - 1 IN
       todo' = (IF Cont[k] = 1 THEN <<TypeAt(d), Sign(">", st)>> ELSE <<TypeAt(d), Sign(",", st), TypeAt(d), Sign(">", st)>>) \o Tail(todo)
    /\ words' = words \o <<k, "<">> /\ text' = text \o k \o "<" /\ canon' = canon \o k \o "<" /\ rust' = rust \o ContRust[k] \o "<"
    /\ UNCHANGED <<phase, pend, out>>

Ends(t, x) == Len(t) > 0 /\ t[Len(t)] = x
Before(x, st) == IF (x = ">" /\ ((st = 1 /\ Ends(words, ">")) \/ st = 3)) \/ (x = "," /\ st = 3) THEN " " ELSE ""
After(x, st)  == IF x = "," /\ st = 3 THEN " " ELSE ""
PutSign ==
    /\ phase = "write" /\ todo # <<>> /\ Head(todo).s = "sign"
    /\ LET x == Head(todo).x  st == Head(todo).sp IN
       text' = text \o Before(x, st) \o x \o After(x, st) /\ words' = Append(words, x) /\ canon' = canon \o x /\ rust' = rust \o x
    /\ todo' = Tail(todo) /\ UNCHANGED <<phase, pend, out>>

Written == phase = "write" /\ todo = <<>> /\ phase' = "read" /\ UNCHANGED <<todo, words, text, canon, rust, pend, out>>

(* ---------------- reading *)
Parts == {"unsigned", "signed", "char", "short", "int", "long"}
Named(ws) ==      \* the type that several words name: as the language defines it
    LET has(x) == \E i \in 1..Len(ws) : ws[i] = x
        u == IF has("unsigned") THEN "uint" ELSE "int" IN
    CASE has("char") -> u \o "8_t" [] has("short") -> u \o "16_t" [] has("long") -> u \o "64_t" [] OTHER -> u \o "32_t"
Alias == [Char_t |-> "int8_t", UChar_t |-> "uint8_t", Short_t |-> "int16_t", UShort_t |-> "uint16_t", Int_t |-> "int32_t", UInt_t |-> "uint32_t",
          Long64_t |-> "int64_t", Long_t |-> "int64_t", ULong64_t |-> "uint64_t", ULong_t |-> "uint64_t",
          Float_t |-> "float", Double_t |-> "double", Bool_t |-> "bool"]
Inside == [Offset |-> "Off" \o "HashSet", Bitmap |-> "Bit" \o "HashMap", longitude |-> "int64_t" \o "itude", xint |-> "x" \o "int32_t"]
Single(w) == IF w \in DOMAIN Alias THEN Alias[w]
             ELSE IF MODE = "inside" /\ w \in DOMAIN Inside THEN Inside[w] ELSE w

Collect == /\ phase = "read" /\ words # <<>> /\ Head(words) \in Parts
           /\ IF MODE = "single" THEN out' = out \o Named(<<Head(words)>>) /\ UNCHANGED pend
              ELSE pend' = Append(pend, Head(words)) /\ UNCHANGED out
           /\ words' = Tail(words) /\ UNCHANGED <<todo, text, canon, rust, phase>>
Flushed == IF pend = <<>> THEN "" ELSE Named(pend)
Word == /\ phase = "read" /\ words # <<>> /\ Head(words) \notin Parts
        /\ out' = out \o Flushed \o Single(Head(words)) /\ pend' = <<>> /\ words' = Tail(words)
        /\ UNCHANGED <<todo, text, canon, rust, phase>>
Done == /\ phase = "read" /\ words = <<>> /\ out' = out \o Flushed /\ pend' = <<>> /\ phase' = "done"
        /\ UNCHANGED <<todo, words, text, canon, rust>>

Next == \/ \E b \in Basics : Basic(b)
        \/ \E k \in CONTAINERS, st \in STYLES : Open(k, st)
        \/ PutSign \/ Written \/ Collect \/ Word \/ Done
Spec == Init /\ [][Next]_vars

FindsType == phase = "done" => out = canon
(* normal names are normal, and say which type it is *)
ASSUME \A a, b \in Arith \cup User : (a.c = b.c) = (a.r = b.r)
ASSUME \A a \in Arith \cup User : \E b \in Arith \cup User : b.w = <<a.c>> /\ b.c = a.c
ASSUME \A a, b \in Arith \cup User : a.w = b.w => a = b
ASSUME \A x \in Own : x \notin DOMAIN Cont /\ x \notin Parts
ASSUME \A k, j \in DOMAIN Cont : ContRust[k] = ContRust[j] => k = j

(* ---------------- for the driver *)
Emit == phase = "write" /\ todo = <<>> /\ PrintT("BEHAVIOUR " \o ToJson([text |-> text, canon |-> canon, rust |-> rust])) /\ phase' = "end"
         /\ UNCHANGED <<todo, words, text, canon, rust, pend, out>>
GenNext == (\E b \in Basics : Basic(b)) \/ (\E k \in CONTAINERS, st \in STYLES : Open(k, st)) \/ PutSign \/ Emit
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
