------------------------------ MODULE OxyInfo ------------------------------
(***************************************************************************)
(* A list of strings and maps (of strings to strings) in an object stream. *)
(* Each object is preceded by its class: the name the first time, later    *)
(* either again the name or the place where the name was written.  Places  *)
(* are counted from the start of the record, the stream begins Org cells   *)
(* into it.  The reader learns classes at the places it passes.            *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS MaxItems, MaxPairs, Texts, Keys, Org, Choose, BadOrigin, Gen
VARIABLES out, cls, want, left, ch, ph, i, tab, cur, got, todo
ivars == <<out, cls, want, left, ch, ph, i, tab, cur, got, todo>>
S == "str"
M == "map"
IInit == out = <<>> /\ cls = Empty /\ want = <<>> /\ left = 0 /\ ch = <<>> /\ ph = "put" /\ i = 1 /\ tab = Empty /\ cur = "" /\ got = <<>> /\ todo = 0

(* writing: tag, then body *)
Tag(c, byref) == IF byref THEN [t |-> "ref", at |-> cls[c]] ELSE [t |-> "new", c |-> c]
Allowed(c, byref) == (byref => c \in DOMAIN cls) /\ (~Choose => byref = (c \in DOMAIN cls))
Learn(c, byref) == /\ cls' = (IF byref THEN cls ELSE Put(cls, c, Org + Len(out) + 1))
                   /\ ch' = Append(ch, byref)
Rest == UNCHANGED <<ph, i, tab, cur, got, todo>>
PutStr(x, byref) == /\ ph = "put" /\ left = 0 /\ Len(want) < MaxItems /\ Allowed(S, byref) /\ Learn(S, byref)
                    /\ out' = out \o <<Tag(S, byref), [t |-> "text", s |-> x]>>
                    /\ want' = Append(want, [k |-> S, s |-> x]) /\ UNCHANGED left /\ Rest
PutMap(n, byref) == /\ ph = "put" /\ left = 0 /\ Len(want) < MaxItems /\ Allowed(M, byref) /\ Learn(M, byref)
                    /\ out' = out \o <<Tag(M, byref), [t |-> "count", n |-> n]>>
                    /\ want' = Append(want, [k |-> M, pairs |-> <<>>]) /\ left' = 2 * n /\ Rest
Open == want[Len(want)]
KeysIn(m) == {m.pairs[j][1] : j \in 1..Len(m.pairs)}
PutPart(x, byref) ==
    /\ ph = "put" /\ left > 0 /\ Allowed(S, byref) /\ Learn(S, byref)
    /\ out' = out \o <<Tag(S, byref), [t |-> "text", s |-> x]>>
    /\ IF (left % 2) = 0
       THEN x \in Keys /\ x \notin KeysIn(Open) /\ want' = [want EXCEPT ![Len(want)].pairs = Append(@, <<x>>)]
       ELSE x \in Texts /\ want' = [want EXCEPT ![Len(want)].pairs[Len(Open.pairs)] = Append(@, x)]
    /\ left' = left - 1 /\ Rest
Done == /\ ph = "put" /\ left = 0 /\ ph' = "read" /\ UNCHANGED <<out, cls, want, left, ch, i, tab, cur, got, todo>>
        /\ (~Gen \/ PrintT("BEHAVIOUR " \o ToJson([items |-> want, refs |-> ch])))

(* reading *)
Here == IF BadOrigin THEN i ELSE Org + i
ReadTag == /\ ~Gen /\ ph = "read" /\ cur = "" /\ i <= Len(out)
           /\ IF out[i].t = "new" THEN cur' = out[i].c /\ tab' = Put(tab, Here, out[i].c)
              ELSE out[i].at \in DOMAIN tab /\ cur' = tab[out[i].at] /\ UNCHANGED tab
           /\ i' = i + 1 /\ UNCHANGED <<out, cls, want, left, ch, ph, got, todo>>
Deliver(x) == IF todo = 0 THEN Append(got, [k |-> S, s |-> x])
              ELSE LET k == Len(got) IN
                   IF (todo % 2) = 0 THEN [got EXCEPT ![k].pairs = Append(@, <<x>>)]
                   ELSE [got EXCEPT ![k].pairs[Len(got[k].pairs)] = Append(@, x)]
ReadText == /\ ph = "read" /\ cur = S /\ got' = Deliver(out[i].s) /\ todo' = (IF todo = 0 THEN 0 ELSE todo - 1)
            /\ cur' = "" /\ i' = i + 1 /\ UNCHANGED <<out, cls, want, left, ch, ph, tab>>
ReadCount == /\ ph = "read" /\ cur = M /\ got' = Append(got, [k |-> M, pairs |-> <<>>]) /\ todo' = 2 * out[i].n
             /\ cur' = "" /\ i' = i + 1 /\ UNCHANGED <<out, cls, want, left, ch, ph, tab>>
ReadEnd == /\ ~Gen /\ ph = "read" /\ cur = "" /\ i > Len(out) /\ ph' = "done" /\ UNCHANGED <<out, cls, want, left, ch, i, tab, cur, got, todo>>
INext == \/ \E x \in Texts, b \in BOOLEAN : PutStr(x, b)
         \/ \E n \in 0..MaxPairs, b \in BOOLEAN : PutMap(n, b)
         \/ \E x \in Texts \cup Keys, b \in BOOLEAN : PutPart(x, b)
         \/ Done \/ ReadTag \/ ReadText \/ ReadCount \/ ReadEnd
ISpec == IInit /\ [][INext]_ivars
AsStored == ph = "done" => got = want
(* every place a tag names is known when it is met *)
TagsKnown == (ph = "read" /\ cur = "" /\ i <= Len(out) /\ out[i].t = "ref") => out[i].at \in DOMAIN tab
=============================================================================
