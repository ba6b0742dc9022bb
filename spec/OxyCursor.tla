----------------------------- MODULE OxyCursor -----------------------------
(***************************************************************************)
(* A cursor over a buffer of bytes.  Every operation either moves the      *)
(* cursor and gives the bytes it passed, or fails.  A value is given as    *)
(* its big-endian bytes, so that "the value read" and "the bytes stored"   *)
(* can be compared for every kind of number.                               *)
(* Objects (vectors, arrays, slices) are read with the same operations.    *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS Buffers, Ops, Offsets, MaxOps, Gen
VARIABLES
    buf, off,     \* the bytes and the position the first one has
    c,            \* bytes before the cursor
    hdr,          \* size of an object header to be skipped, -1: none
    alive,        \* no operation has failed
    hist,         \* operations done
    last          \* what the last one gave
cvars == <<buf, off, c, hdr, alive, hist, last>>

Width == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, u64 |-> 8, i64 |-> 8, f32 |-> 4, f64 |-> 8, bool |-> 1]
Fail == [ok |-> FALSE, v |-> <<>>, c |-> 0, hdr |-> 0, huge |-> FALSE]
Huge == [Fail EXCEPT !.huge = TRUE]      \* a number of elements that is no use to anybody
Give(v, at, h) == [ok |-> TRUE, v |-> v, c |-> at, hdr |-> h, huge |-> FALSE]
Left(b, at) == Len(b) - at
Bytes(b, at, n) == SubSeq(b, at + 1, at + n)
Scalar(b, at, h, k) ==
    IF Left(b, at) < Width[k] THEN Fail
    ELSE Give(IF k = "bool" THEN <<IF b[at + 1] = 0 THEN 0 ELSE 1>> ELSE Bytes(b, at, Width[k]), at + Width[k], h)
RECURSIVE Many(_, _, _, _, _)      \* n values of a kind
Many(b, at, h, k, n) ==
    IF n = 0 THEN Give(<<>>, at, h)
    ELSE LET x == Scalar(b, at, h, k) IN
         IF ~x.ok THEN Fail
         ELSE LET r == Many(b, x.c, h, k, n - 1) IN IF ~r.ok THEN Fail ELSE Give(<<x.v>> \o r.v, r.c, h)
(* a text: one byte of length, or 255 and four *)
Num4(b, at) == ((b[at + 1] * 256 + b[at + 2]) * 256 + b[at + 3]) * 256 + b[at + 4]
Str(b, at, h) ==
    IF Left(b, at) < 1 THEN Fail
    ELSE IF b[at + 1] < 255
    THEN IF Left(b, at + 1) < b[at + 1] THEN Fail ELSE Give(Bytes(b, at + 1, b[at + 1]), at + 1 + b[at + 1], h)
    ELSE IF Left(b, at + 1) < 4 THEN Fail
    ELSE IF b[at + 2] > 63 THEN Fail
    ELSE LET n == Num4(b, at + 1) IN IF Left(b, at + 5) < n THEN Fail ELSE Give(Bytes(b, at + 5, n), at + 5 + n, h)
(* a text up to a zero byte, which is passed as well *)
Zero(b, at, n) == LET zs == {j \in 0..n - 1 : at + j + 1 <= Len(b) /\ b[at + j + 1] = 0} IN IF zs = {} THEN 0 - 1 ELSE MinOf(zs)
CStr(b, at, h, n) == LET z == Zero(b, at, n) IN IF z < 0 THEN Fail ELSE Give(Bytes(b, at, z), at + z + 1, h)
(* an object header says how many bytes follow it, in four bytes with a mark *)
Header(b, at, h) ==
    IF h < 0 \/ Left(b, at) < h THEN at
    ELSE IF h < 4 THEN at + h
    ELSE LET w == Bytes(b, at, 4) IN
         IF w[1] < 64 \/ w[1] > 127 THEN at
         ELSE IF ((w[1] - 64) * 256 + w[2]) * 65536 + w[3] * 256 + w[4] + 4 > Left(b, at) THEN at
         ELSE at + h
RECURSIVE Elems(_, _, _, _)        \* n elements of a nested kind, no headers inside
Vector(b, at0, h, k) ==
    LET at == Header(b, at0, h) IN
    IF Left(b, at) < 4 THEN Fail
    ELSE IF b[at + 1] > 0 \/ b[at + 2] > 0 THEN Huge
    ELSE Elems(b, at + 4, k, Num4(b, at))
Elems(b, at, k, n) ==
    IF n = 0 THEN Give(<<>>, at, 0 - 1)
    ELSE LET x == IF k = "vec_u8" THEN Vector(b, at, 0 - 1, "u8") ELSE Scalar(b, at, 0 - 1, k) IN
         IF ~x.ok THEN x
         ELSE LET r == Elems(b, x.c, k, n - 1) IN IF ~r.ok THEN r ELSE Give(<<x.v>> \o r.v, r.c, 0 - 1)
(* a slice takes all there is *)
SliceOf(b, at0, h, k) ==
    LET at == Header(b, at0, h) IN
    IF Left(b, at) <= 0 THEN Give(<<>>, at, h)
    ELSE IF Left(b, at) % Width[k] # 0 THEN Fail ELSE Many(b, at, h, k, Left(b, at) \div Width[k])

Do(b, o, at, h, k, a) ==
    CASE k \in DOMAIN Width -> Scalar(b, at, h, k)
      [] k = "str" -> Str(b, at, h)
      [] k = "cstr" -> CStr(b, at, h, a)
      [] k \in {"bytes", "bytes_into"} -> IF Left(b, at) < a THEN Fail ELSE Give(Bytes(b, at, a), at + a, h)
      [] k = "i16s" -> Many(b, at, h, "i16", a)
      [] k = "i32s" -> Many(b, at, h, "i32", a)
      [] k = "i64s" -> Many(b, at, h, "i64", a)
      [] k = "skip" -> IF at + a < 0 THEN Fail ELSE Give(<<>>, at + a, h)
      [] k = "rewind" -> IF at - a < 0 THEN Fail ELSE Give(<<>>, at - a, h)
      [] k = "set" -> IF a - o < 0 THEN Fail ELSE Give(<<>>, a - o, h)
      [] k = "hdr" -> Give(<<>>, at, a)
      [] k = "dohdr" -> Give(<<>>, Header(b, at, h), h)
      [] k = "vec_u8" -> Vector(b, at, h, "u8")
      [] k = "vec_i16" -> Vector(b, at, h, "i16")
      [] k = "vecvec_u8" -> Vector(b, at, h, "vec_u8")
      [] k = "slice_u8" -> SliceOf(b, at, h, "u8")
      [] k = "slice_i16" -> SliceOf(b, at, h, "i16")
      [] k = "arr3_u8" -> Many(b, at, h, "u8", 3)
      [] k = "arr2_i16" -> Many(b, at, h, "i16", 2)
      [] k = "sized_i16" -> Many(b, at, h, "i16", a)
(* what is asked of the cursor here: moves stay inside the buffer or go before its start, texts are texts *)
Asked(b, o, at, k, a) ==
    /\ k \in {"vec_u8", "vec_i16", "vecvec_u8"} => ~Do(b, o, at, hdr, k, a).huge
    /\ k \in {"str", "cstr"} => LET r == Do(b, o, at, hdr, k, a) IN r.ok => \A j \in 1..Len(r.v) : r.v[j] < 128
    /\ k = "skip" => at + a <= Len(b)
    /\ k = "set" => a - o <= Len(b)
    /\ k = "rewind" => at - a <= Len(b)
    /\ k = "cstr" => Zero(b, at, a) >= 0

CInit ==
    /\ buf \in Buffers /\ off \in Offsets /\ c = 0 /\ hdr = 0 - 1 /\ alive = TRUE /\ hist = <<>>
    /\ last = [k |-> "start", v |-> <<>>, from |-> 0]
Step(k, a) ==
    /\ alive /\ Asked(buf, off, c, k, a)
    /\ LET r == Do(buf, off, c, hdr, k, a) IN
       IF r.ok THEN c' = r.c /\ hdr' = r.hdr /\ alive' = TRUE /\ last' = [k |-> k, v |-> r.v, from |-> c]
       ELSE alive' = FALSE /\ UNCHANGED <<c, hdr>> /\ last' = [k |-> "fail", v |-> <<>>, from |-> c]
    /\ hist' = Append(hist, <<k, a>>)
    /\ UNCHANGED <<buf, off>>
Say ==
    /\ Gen /\ last.k # "end" /\ hist # <<>> /\ (Len(hist) = MaxOps \/ ~alive)
    /\ last' = [last EXCEPT !.k = "end"] /\ UNCHANGED <<buf, off, c, hdr, alive, hist>>
    /\ PrintT("BEHAVIOUR " \o ToJson([buf |-> buf, off |-> off, ops |-> hist]))
CNext == \/ Len(hist) < MaxOps /\ \E op \in Ops : Step(op[1], op[2] + (IF op[1] = "set" THEN off ELSE 0))
         \/ Say
CSpec == CInit /\ [][CNext]_cvars

Inside == 0 <= c /\ c <= Len(buf)
(* plain values and texts are the bytes passed *)
Passed == SubSeq(buf, last.from + 1, c)
Exactly ==
    /\ (last.k \in DOMAIN Width /\ last.k # "bool") => (last.v = Passed /\ Len(last.v) = Width[last.k])
    /\ last.k \in {"bytes", "bytes_into"} => last.v = Passed
    /\ last.k = "cstr" => Passed = Append(last.v, 0)
    /\ last.k = "str" => (Len(last.v) < Len(Passed) /\ last.v = SubSeq(Passed, Len(Passed) - Len(last.v) + 1, Len(Passed)))
    /\ last.k \in {"arr3_u8", "arr2_i16", "i16s", "i32s", "i64s", "sized_i16"} => FlattenSeq(last.v) = Passed
    /\ last.k \in {"slice_u8", "slice_i16"} => c = Len(buf)
=============================================================================
