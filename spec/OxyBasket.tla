----------------------------- MODULE OxyBasket -----------------------------
(***************************************************************************)
(* Entries of different lengths in baskets: the cells of all entries of a  *)
(* basket follow each other, a table gives where each entry starts.  The   *)
(* reader cuts the cells at the table.  Cutting by counting (as if every   *)
(* entry had the same number of cells) is the design that fails.           *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS MaxEntries, MaxLen, MaxBaskets, Counting, Gen
VARIABLES
    lens,   \* lengths given so far
    cuts,   \* entries per basket put
    bs,     \* baskets put: [cells, starts]
    cur,    \* basket being filled
    emb,    \* the last one stays in the tree record
    ph, out
bvars == <<lens, cuts, bs, cur, emb, ph, out>>
Fresh == [cells |-> <<>>, starts |-> <<>>]
BInit == lens = <<>> /\ cuts = <<>> /\ bs = <<>> /\ cur = Fresh /\ emb = FALSE /\ ph = "fill" /\ out = <<>>
Give(k) ==
    /\ ph = "fill" /\ Len(lens) < MaxEntries
    /\ lens' = Append(lens, k)
    /\ cur' = [cells |-> cur.cells \o [j \in 1..k |-> <<Len(lens) + 1, j>>], starts |-> Append(cur.starts, Len(cur.cells))]
    /\ UNCHANGED <<cuts, bs, emb, ph, out>>
PutB ==
    /\ ph = "fill" /\ Len(bs) < MaxBaskets
    /\ bs' = Append(bs, cur) /\ cuts' = Append(cuts, Len(cur.starts)) /\ cur' = Fresh
    /\ UNCHANGED <<lens, emb, ph, out>>
Keep(k) ==
    /\ ph = "fill" /\ (k \/ cur = Fresh)
    /\ emb' = k /\ ph' = "read" /\ bs' = (IF k THEN Append(bs, cur) ELSE bs)
    /\ cuts' = (IF k THEN Append(cuts, Len(cur.starts)) ELSE cuts)
    /\ UNCHANGED <<lens, cur, out>>
    /\ (~Gen \/ PrintT("BEHAVIOUR " \o ToJson([lens |-> lens, cuts |-> cuts', emb |-> k])))
Cut(b) ==
    IF Counting /\ Len(b.starts) > 0 /\ Len(b.cells) % Len(b.starts) = 0
    THEN LET w == Len(b.cells) \div Len(b.starts) IN [j \in 1..Len(b.starts) |-> SubSeq(b.cells, (j - 1) * w + 1, j * w)]
    ELSE [j \in 1..Len(b.starts) |->
             SubSeq(b.cells, b.starts[j] + 1, IF j = Len(b.starts) THEN Len(b.cells) ELSE b.starts[j + 1])]
ReadB ==
    /\ ~Gen /\ ph = "read" /\ bs # <<>>
    /\ out' = out \o Cut(Head(bs)) /\ bs' = Tail(bs)
    /\ UNCHANGED <<lens, cuts, cur, emb, ph>>
EndB == ~Gen /\ ph = "read" /\ bs = <<>> /\ ph' = "end" /\ UNCHANGED <<lens, cuts, bs, cur, emb, out>>
BNext == \/ \E k \in 0..MaxLen : Give(k)
         \/ PutB
         \/ \E k \in BOOLEAN : Keep(k)
         \/ ReadB
         \/ EndB
BSpec == BInit /\ [][BNext]_bvars
Entry(k) == [j \in 1..lens[k] |-> <<k, j>>]
RowsExact == \A k \in 1..Len(out) : out[k] = Entry(k)
AllRows == ph = "end" => Len(out) = Len(lens)
=============================================================================
