------------------------------- MODULE OxyCli -------------------------------
(***************************************************************************)
(* The command-line tools as printers.  A file is a list of keys: trees     *)
(* (columns with a number of values each; the tool can show a column's type *)
(* or not) and other objects.  The dumping tool walks the keys, shows the   *)
(* columns of a tree and then prints, entry by entry, one line per column   *)
(* it can show; a column that has no more values gives "None".  A machine   *)
(* with one iterator per column is compared with what has to be printed.    *)
(* STOP = "longest": as many entries as the tree has; "shortest": until a   *)
(* column is over; "first": as many as the first column has.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MAXN, MAXC, MAXK, STOP
VARIABLES keys, k, i, b, at, lines, phase
vars == <<keys, k, i, b, at, lines, phase>>

Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Min(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y >= x
Cols(n) == UNION {[1..m -> [n : 0..n, show : BOOLEAN]] : m \in 0..MAXC}
Objects == {[tree |-> FALSE, cols |-> <<>>]} \cup {[tree |-> TRUE, cols |-> c] : c \in Cols(MAXN)}

Init == keys = <<>> /\ k = 0 /\ i = 0 /\ b = 0 /\ at = <<>> /\ lines = <<>> /\ phase = "file"
AddKey(o) == phase = "file" /\ Len(keys) < MAXK /\ keys' = Append(keys, o) /\ UNCHANGED <<k, i, b, at, lines, phase>>
Run == phase = "file" /\ phase' = "key" /\ k' = 1 /\ UNCHANGED <<keys, i, b, at, lines>>

C == keys[k].cols
Rounds(c) == LET N == {c[j].n : j \in 1..Len(c)} IN
             CASE STOP = "longest" -> Max(N) [] STOP = "shortest" -> Min({c[j].n : j \in {x \in 1..Len(c) : c[x].show}}) [] STOP = "first" -> IF c = <<>> THEN 0 ELSE c[1].n
Skip == /\ phase = "key" /\ k <= Len(keys) /\ ~keys[k].tree /\ k' = k + 1 /\ lines' = Append(lines, <<"key", k>>) /\ UNCHANGED <<keys, i, b, at, phase>>
Show == /\ phase = "key" /\ k <= Len(keys) /\ keys[k].tree
        /\ lines' = Append(lines, <<"key", k>>) \o [j \in 1..Len(C) |-> <<"col", k, j>>]
        /\ phase' = "rows" /\ i' = 0 /\ b' = 1 /\ at' = [j \in 1..Len(C) |-> 0] /\ UNCHANGED <<keys, k>>
Line == /\ phase = "rows" /\ i < Rounds(C) /\ b <= Len(C)
        /\ (IF C[b].show
           THEN IF at[b] < C[b].n THEN lines' = Append(lines, <<"val", k, i, b, at[b]>>) /\ at' = [at EXCEPT ![b] = @ + 1]
                ELSE lines' = Append(lines, <<"none", k, i, b>>) /\ UNCHANGED at
           ELSE UNCHANGED <<lines, at>>)
        /\ b' = b + 1 /\ UNCHANGED <<keys, k, i, phase>>
Row == phase = "rows" /\ i < Rounds(C) /\ b > Len(C) /\ i' = i + 1 /\ b' = 1 /\ UNCHANGED <<keys, k, at, lines, phase>>
TreeDone == phase = "rows" /\ i >= Rounds(C) /\ phase' = "key" /\ k' = k + 1 /\ UNCHANGED <<keys, i, b, at, lines>>
Done == phase = "key" /\ k > Len(keys) /\ phase' = "done" /\ UNCHANGED <<keys, k, i, b, at, lines>>
Next == (\E o \in Objects : AddKey(o)) \/ Run \/ Skip \/ Show \/ Line \/ Row \/ TreeDone \/ Done
Spec == Init /\ [][Next]_vars

(* every value of every column that can be shown is printed, once, in order, on the line of its entry *)
Of(j, c) == SelectSeq(lines, LAMBDA x : x[1] = "val" /\ x[2] = j /\ x[4] = c)
AllPrinted == phase = "done" =>
    \A j \in 1..Len(keys) : \A c \in 1..Len(keys[j].cols) :
        LET L == Of(j, c)  K == keys[j].cols[c] IN
        /\ Len(L) = (IF K.show THEN K.n ELSE 0)
        /\ \A x \in 1..Len(L) : L[x][3] = x - 1 /\ L[x][5] = x - 1
EveryKey == phase = "done" => \A j \in 1..Len(keys) : \E x \in 1..Len(lines) : lines[x] = <<"key", j>>
=============================================================================
