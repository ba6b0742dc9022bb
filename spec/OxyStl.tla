------------------------------- MODULE OxyStl -------------------------------
(***************************************************************************)
(* Collections in a column: how one entry lies in the file and how it is   *)
(* read back.  An entry of a vector or set starts with an object header of *)
(* six bytes (number of bytes that follow, marked by one bit; version),    *)
(* a map with one of twelve and each of its two halves with one of six     *)
(* again, but only if what the half holds are objects: numbers and         *)
(* TStrings follow without.  Inside, everything is plain: a count and the  *)
(* elements.  The reader is told where a header may be, not whether.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Naive,      \* TRUE: the reader takes any mark for a header (a design that fails)
          Deep,       \* more values
          Show

Range1(s) == {s[j] : j \in 1..Len(s)}
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* -- types -- *)
N(w) == [k |-> "num", w |-> w]
Str == [k |-> "str"]
TStr == [k |-> "tstr"]
V(e) == [k |-> "vec", e |-> e]
St(e) == [k |-> "set", e |-> e]
M(a, b) == [k |-> "map", a |-> a, b |-> b]
Items == {N(1), N(2), N(4), N(8), Str, TStr}
Types == {Str} \cup {V(e) : e \in Items} \cup {St(e) : e \in Items}
    \cup {V(V(e)) : e \in {N(1), N(2), N(8), Str}} \cup {V(St(e)) : e \in {N(2), Str}} \cup {V(V(V(N(2))))}
    \cup {M(a, b) : a \in {N(4), Str, TStr}, b \in {N(2), Str, TStr, V(N(2)), V(Str), St(N(2)), St(Str), V(V(N(2))), V(St(N(2)))}}
    \cup {M(N(1), N(1)), M(N(8), N(8)), M(N(8), V(N(8)))}

(* -- values -- *)
Rep(b, n) == [j \in 1..n |-> b]
Nums(w, few) == IF few THEN {Rep(0, w), [j \in 1..w |-> IF j = 1 THEN 64 ELSE 0]}
                ELSE {Rep(0, w), Rep(255, w), [j \in 1..w |-> IF j = w THEN 1 ELSE 0], [j \in 1..w |-> IF j = 1 THEN 64 ELSE 0]}
Texts(few) == IF few THEN {<<97>>, Rep(120, 64)} ELSE {<<>>, <<97>>, Rep(120, 64), Rep(121, 127), Rep(122, 255)}
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RECURSIVE Values(_, _)
Values(t, few) ==
    CASE t.k = "num" -> Nums(t.w, few)
      [] t.k \in {"str", "tstr"} -> Texts(few)
      [] t.k = "vec" -> SeqsUpTo(Values(t.e, few \/ t.e.k \notin {"num"}), IF Deep /\ t.e.k = "num" THEN 3 ELSE 2)
      [] t.k = "set" -> {s \in SeqsUpTo(Values(t.e, few \/ t.e.k \notin {"num"}), 2) : Distinct(s)}
      [] t.k = "map" -> LET ks == {s \in SeqsUpTo(Values(t.a, TRUE), 2) : Distinct(s)}
                            vs == SetToSeq(Values(t.b, TRUE)) IN
                        {[j \in 1..Len(k) |-> <<k[j], vs[((j * step + off) % Len(vs)) + 1]>>] :
                              k \in ks, step \in 1..2, off \in 0..(Len(vs) - 1)}

(* -- how they lie -- *)
U32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Text(s) == (IF Len(s) < 255 THEN <<Len(s)>> ELSE <<255>> \o U32(Len(s))) \o s
Hdr(body) == LET n == U32(Len(body) + 2) IN <<n[1] + 64>> \o Tail(n) \o <<0, 9>> \o body
RECURSIVE Raw(_, _)
Raw(t, v) ==
    CASE t.k = "num" -> v
      [] t.k \in {"str", "tstr"} -> Text(v)
      [] t.k \in {"vec", "set"} -> U32(Len(v)) \o Flat([j \in 1..Len(v) |-> Raw(t.e, v[j])])
Half(t, vs) == LET b == Flat([j \in 1..Len(vs) |-> Raw(t, vs[j])]) IN IF t.k \in {"num", "tstr"} THEN b ELSE Hdr(b)
MapBody(t, v) == U32(Len(v)) \o Half(t.a, [j \in 1..Len(v) |-> v[j][1]]) \o Half(t.b, [j \in 1..Len(v) |-> v[j][2]])
Entry(t, v) ==
    CASE t.k \in {"str", "tstr"} -> Text(v)
      [] t.k \in {"vec", "set"} -> Hdr(Raw(t, v))
      [] t.k = "map" -> LET b == <<0, 0, 170, 187, 204, 221>> \o MapBody(t, v)
                            n == U32(Len(b) + 2) IN <<n[1] + 64>> \o Tail(n) \o <<64, 9>> \o b

(* -- how they are read: p is the next byte, h the size of the header that may be there -- *)
Num4(b, p) == b[p] * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
Marked(b, p) == (b[p] \div 64) % 4 = 1
Fits(b, p) == (b[p] % 64) < 64 /\ ((b[p] % 64) * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]) + 4 <= Len(b) - p + 1
Over(b, p, h) == IF h < 4 \/ Len(b) - p + 1 < h THEN p
                 ELSE IF Naive THEN (IF (b[p] \div 64) % 2 = 1 THEN p + h ELSE p)
                 ELSE IF Marked(b, p) /\ Fits(b, p) THEN p + h ELSE p
(* results are <<value, next byte>> *)
ReadText(b, p) == IF b[p] = 255 THEN <<SubSeq(b, p + 5, p + 4 + Num4(b, p + 1)), p + 5 + Num4(b, p + 1)>>
                  ELSE <<SubSeq(b, p + 1, p + b[p]), p + 1 + b[p]>>
RECURSIVE Read1(_, _, _, _)
RECURSIVE ReadN(_, _, _, _)
ReadN(t, b, p, n) == IF n = 0 THEN <<<<>>, p>>
                     ELSE LET one == Read1(t, b, p, 0) IN LET more == ReadN(t, b, one[2], n - 1) IN <<<<one[1]>> \o more[1], more[2]>>
(* the first element of a half may have the header in front, the others cannot *)
ReadHalf(t, b, p, n) == IF n = 0 THEN <<<<>>, p>>
                        ELSE LET one == Read1(t, b, p, 6) IN LET more == ReadN(t, b, one[2], n - 1) IN <<<<one[1]>> \o more[1], more[2]>>
Read1(t, b, p, h) ==
    CASE t.k = "num" -> <<SubSeq(b, p, p + t.w - 1), p + t.w>>
      [] t.k \in {"str", "tstr"} -> ReadText(b, Over(b, p, h))
      [] t.k \in {"vec", "set"} -> LET q == Over(b, p, h) IN ReadN(t.e, b, q + 4, Num4(b, q))
      [] t.k = "map" -> LET q == Over(b, p, h) IN LET n == Num4(b, q) IN
                        LET ks == ReadHalf(t.a, b, q + 4, n) IN LET vs == ReadHalf(t.b, b, ks[2], n) IN
                        <<[j \in 1..n |-> <<ks[1][j], vs[1][j]>>], vs[2]>>
HeaderSize(t) == IF t.k = "map" THEN 12 ELSE IF t.k \in {"vec", "set"} THEN 6 ELSE 0

VARIABLES ty, val
Init == ty \in Types /\ val \in Values(ty, FALSE)
Next == UNCHANGED <<ty, val>>
Spec == Init /\ [][Next]_<<ty, val>>

(* an empty half still may carry its header: nothing reads past it, so only the value counts *)
ReadBack == Read1(ty, Entry(ty, val), 1, HeaderSize(ty))[1] = val
RECURSIVE HasMap(_)
HasMap(t) == t.k = "map"
AllBytes == HasMap(ty) \/ Read1(ty, Entry(ty, val), 1, HeaderSize(ty))[2] = Len(Entry(ty, val)) + 1
(* two different values never lie the same way *)
Case == ~Show \/ PrintT("BEHAVIOUR " \o ToJson([ty |-> ty, val |-> val, bytes |-> Entry(ty, val)]))
=============================================================================
