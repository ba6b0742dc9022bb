----------------------------- MODULE MCOxySelf -----------------------------
(* Small classes, written by their layout, read by a description of them:    *)
(* with the true one every byte is found to belong to the member it is read  *)
(* as; WRONG: how the description differs (swapped, missing, wider, version, *)
(* counter).                                                                 *)
EXTENDS OxySelf
CONSTANTS WRONG, LEN

VARIABLES layout, cells, descs, phase
mvars == <<svars, layout, cells, descs, phase>>

B(n, code) == [k |-> "basic", n |-> n, code |-> code, cls |-> "", ver |-> 0, cnt |-> ""]
P(n, code, cnt) == [k |-> "ptr", n |-> n, code |-> code, cls |-> "", ver |-> 0, cnt |-> cnt]
T(n) == [k |-> "string", n |-> n, code |-> 0, cls |-> "", ver |-> 0, cnt |-> ""]
Part == <<B("p", 2), T("q")>>
Kinds == {B("a", 1), B("b", 3), B("c", 16), B("n", 6), P("v", 3, "n"), P("w", 11, "n"), T("s"), El("base", "Part", 1)}
Names(l) == {l[j].n : j \in 1..Len(l)}
Layouts == {l \in UNION {[1..m -> Kinds] : m \in 1..LEN} :
               /\ \A i, j \in 1..Len(l) : i # j => l[i].n # l[j].n
               /\ \A i \in 1..Len(l) : l[i].k = "ptr" => \E j \in 1..i - 1 : l[j].n = "n"}

(* the bytes a writer makes: every byte knows which member it is of, and which byte of it *)
Of(n, m, v) == [j \in 1..m |-> <<n, j, v>>]
RECURSIVE Bytes(_, _)
Cell(el, c) == CASE el.k = "basic" -> Of(el.n, Size(el.code), c)
                 [] el.k = "ptr" -> Of(el.n, 1 + c * Size(el.code), c)
                 [] el.k = "string" -> Of(el.n, 1 + c, c)
                 [] el.k = "base" -> Of("Part.", 6, 1) \o Bytes(Part, c)
Bytes(l, c) == IF l = <<>> THEN <<>> ELSE Cell(Head(l), c) \o Bytes(Tail(l), c)

Desc(l, v) == <<[name |-> "Rec", ver |-> v, sum |-> "", els |-> l], [name |-> "Part", ver |-> 1, sum |-> "", els |-> Part]>>
Swap(l, i) == [l EXCEPT ![i] = l[i + 1], ![i + 1] = l[i]]
Told(l) ==
    CASE WRONG = ""        -> {Desc(l, 3)}
      [] WRONG = "swapped" -> {Desc(Swap(l, i), 3) : i \in 1..Len(l) - 1}
      [] WRONG = "missing" -> {Desc(SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l)), 3) : i \in 1..Len(l)}
      [] WRONG = "wider"   -> {Desc([l EXCEPT ![i].code = 16], 3) : i \in {j \in 1..Len(l) : l[j].k = "basic" /\ l[j].code # 16}}
      [] WRONG = "version" -> {Desc(l, 4)}

Init == /\ SInit /\ layout \in Layouts /\ phase = "write" /\ cells = <<>> /\ descs = <<>>
Write == /\ phase = "write" /\ phase' = "read" /\ \E c \in 0..2 : cells' = Of("Rec.", 6, 3) \o Bytes(layout, c)
         /\ descs' \in Told(layout) /\ UNCHANGED <<svars, layout>>
At(p) == IF p < Len(cells) THEN cells[p + 1] ELSE <<"", 0, 0>>
Count == At(pos)[3]                        \* a value, as far as it matters here
Here(m) == [at |-> pos, to |-> pos + m, n |-> D(descs).n, v |-> Count, len |-> Count, vs |-> <<>>]
Is(n, m) == /\ pos + m <= Len(cells) /\ \A j \in 1..m : cells[pos + j][1] = n /\ cells[pos + j][2] = j
            /\ pos + m < Len(cells) => cells[pos + m + 1][2] = 1
Tells(f, fr) == Append(f, fr.cls)
SizeNow == LET d == D(descs) IN CASE d.k = "basic" -> Size(d.code)
             [] d.k = "ptr" -> 1 + (IF d.cnt \in DOMAIN Top.mem THEN Top.mem[d.cnt] ELSE 0) * Size(d.code)
             [] d.k = "string" -> 1 + Count [] OTHER -> 6
PartEnd == pos + 6 + Size(2) + 1 + At(pos + 8)[3]
Read ==
    /\ phase = "read" /\ UNCHANGED <<layout, cells, descs, phase>>
    /\ \/ stack = <<>> /\ pos = 0 /\ Begin([at |-> 0, to |-> 6, end |-> Len(cells), cls |-> "Rec", ver |-> 3, sum |-> "", part |-> FALSE], descs)
       \/ stack # <<>> /\ Basic(Here(SizeNow), descs)
       \/ stack # <<>> /\ D(descs).k = "ptr" /\ Pointed([Here(SizeNow) EXCEPT !.vs = [j \in 1..Top.mem[D(descs).cnt] |-> 0]], descs)
       \/ stack # <<>> /\ Text(Here(SizeNow), descs)
       \/ stack # <<>> /\ Begin([at |-> pos, to |-> pos + 6, end |-> PartEnd, cls |-> "Part", ver |-> At(pos)[3], sum |-> "", part |-> TRUE], descs)
       \/ stack # <<>> /\ Leave([at |-> pos], descs, Tells)
Next == Write \/ Read
Spec == Init /\ [][Next]_mvars

Finished == found = <<"Rec">>
(* what is read next is what lies there *)
Right == phase = "read" /\ stack # <<>> /\ D(descs).k \in {"basic", "ptr", "string"} => Is(D(descs).n, SizeNow)
(* the reader is never at a loss *)
NeverStuck == phase = "read" => (Finished \/ ENABLED Read)
=============================================================================
