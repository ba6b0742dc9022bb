----------------------------- MODULE OxyDurable -----------------------------
(***************************************************************************)
(* What is on disk while a file is being written, at the grain of single   *)
(* writes: which of them reach the file when the process ends, when the    *)
(* operating system refuses or shortens one, and when the file is cut      *)
(* afterwards; and what opening such a file may show.                      *)
(*                                                                         *)
(* The file is a set of places: H header, D directory, <<"b", t, j>> basket *)
(* j of tree t, <<"t", t>> the record of tree t, K key list, I class       *)
(* descriptions, F free list.  Their order in the file is the order of     *)
(* first writing, F last.                                                  *)
(***************************************************************************)
EXTENDS Store, TLC
CONSTANTS NTrees, NBk,          \* trees 1..NTrees of 0..NBk baskets each
          Flush,                \* TRUE: closing waits until everything is with the operating system
          DirLast,              \* TRUE: the directory is pointed to the key list only after all it leads to is written
          MaxBuf, MaxFaults

VARIABLES
    st,    \* writer: create, fill, dir, tail, flush, ok (success reported), failed (error reported), dead
    todo,  \* writes of the current stage not yet issued: Seq of [at, val]
    buf,   \* issued and still inside the process
    img,   \* place -> value, as anybody sees it; torn: partly written
    ord,   \* places in the order they got their room
    cur,   \* number of trees whose write was reported as successful
    nb,    \* baskets of each tree
    cut,   \* FALSE, or TRUE once the file lost its end
    flt    \* faults so far
dvars == <<st, todo, buf, img, ord, cur, nb, cut, flt>>

T(t) == <<"t", t>>
B(t, j) == <<"b", t, j>>
W(at, val) == [at |-> at, val |-> val]

DInit ==
    /\ nb \in [1..NTrees -> 0..NBk]
    /\ st = "create" /\ todo = <<W(<<"H">>, "old"), W(<<"D">>, "zero")>>
    /\ buf = <<>> /\ img = Empty /\ ord = <<>> /\ cur = 0 /\ cut = FALSE /\ flt = 0

Writing == st \in {"create", "fill", "dir", "tail"}

(* the writer issues its next write *)
Issue ==
    /\ Writing /\ todo # <<>> /\ Len(buf) < MaxBuf
    /\ buf' = Append(buf, Head(todo)) /\ todo' = Tail(todo)
    /\ ord' = IF \E j \in 1..Len(ord) : ord[j] = Head(todo).at THEN ord ELSE Append(ord, Head(todo).at)
    /\ UNCHANGED <<st, img, cur, nb, cut, flt>>

TreeWrites(t) == [j \in 1..nb[t] |-> W(B(t, j), "full")] \o <<W(T(t), "full")>>
KeyList == W(<<"K">>, "full")
DirSet == W(<<"D">>, "set")

Stage ==
    /\ Writing /\ todo = <<>>
    /\ CASE st = "create" -> st' = "fill" /\ todo' = <<>> /\ UNCHANGED cur
         [] st = "fill" /\ cur < NTrees -> st' = "fill" /\ todo' = TreeWrites(cur + 1) /\ cur' = cur + 1
         [] st = "fill" -> st' = "dir" /\ todo' = (IF DirLast THEN <<KeyList, DirSet>> ELSE <<DirSet, KeyList>>) /\ UNCHANGED cur
         [] st = "dir" -> st' = "tail" /\ todo' = <<W(<<"I">>, "full"), W(<<"F">>, "full"), W(<<"H">>, "torn"), W(<<"H">>, "new")>> /\ UNCHANGED cur
         [] st = "tail" -> st' = (IF Flush THEN "flush" ELSE "ok") /\ UNCHANGED <<cur, todo>>
    /\ UNCHANGED <<buf, img, ord, nb, cut, flt>>
(* the user may stop adding trees at any point and close *)
CloseEarly ==
    /\ st = "fill" /\ todo = <<>> /\ cur < NTrees
    /\ st' = "dir" /\ todo' = (IF DirLast THEN <<KeyList, DirSet>> ELSE <<DirSet, KeyList>>)
    /\ UNCHANGED <<buf, img, ord, cur, nb, cut, flt>>
(* K and the tree records it names: K names trees 1..cur *)

Alive == st \notin {"dead", "failed"}
(* the operating system takes the oldest write, whole or the first part of it *)
Reach ==
    /\ Alive /\ buf # <<>>
    /\ img' = Put(img, Head(buf).at, Head(buf).val) /\ buf' = Tail(buf)
    /\ UNCHANGED <<st, todo, ord, cur, nb, cut, flt>>
Partly ==
    /\ Alive /\ buf # <<>> /\ flt < MaxFaults
    /\ img' = Put(img, Head(buf).at, "torn") /\ flt' = flt + 1
    /\ UNCHANGED <<st, todo, buf, ord, cur, nb, cut>>
(* ... or refuses it: the writer reports that and stops *)
Refuse ==
    /\ Alive /\ st # "ok" /\ buf # <<>> /\ flt < MaxFaults
    /\ st' = "failed" /\ flt' = flt + 1
    /\ UNCHANGED <<todo, buf, img, ord, cur, nb, cut>>
Flushed ==
    /\ st = "flush" /\ buf = <<>> /\ st' = "ok"
    /\ UNCHANGED <<todo, buf, img, ord, cur, nb, cut, flt>>
(* the process ends, what it still held is gone *)
Die ==
    /\ st \notin {"dead"}
    /\ st' = IF st = "ok" THEN "ok" ELSE "dead"
    /\ buf' = <<>> /\ todo' = <<>>
    /\ UNCHANGED <<img, ord, cur, nb, cut, flt>>
(* a closed file loses its end: the last n places, the first of them perhaps only partly *)
Cut ==
    /\ st = "ok" /\ buf = <<>> /\ ~cut
    /\ \E n \in 1..Len(ord), half \in BOOLEAN :
          LET keep == Len(ord) - n
              left == {ord[j] : j \in 1..keep} \cap DOMAIN img IN
          img' = [p \in left \cup (IF half THEN {ord[keep + 1]} \cap DOMAIN img ELSE {}) |-> IF p \in left THEN img[p] ELSE "torn"]
    /\ cut' = TRUE
    /\ UNCHANGED <<st, todo, buf, ord, cur, nb, flt>>

DNext == Issue \/ Stage \/ CloseEarly \/ Reach \/ Partly \/ Refuse \/ Flushed \/ Die \/ Cut
DSpec == DInit /\ [][DNext]_dvars

----------------------------------------------------------------------------
(* ---- opening ---- *)
Is1(p, v) == p \in DOMAIN img /\ img[p] = v
Whole(t) == Is1(T(t), "full") /\ \A j \in 1..nb[t] : Is1(B(t, j), "full")

(* refused, or showing the trees named by the key list, right or wrong *)
View ==
    IF ~(Is1(<<"H">>, "old") \/ Is1(<<"H">>, "new")) THEN "refused"
    ELSE IF ~Is1(<<"D">>, "set") THEN "refused"
    ELSE IF Is1(<<"H">>, "new") /\ ~(Is1(<<"I">>, "full") /\ Is1(<<"F">>, "full")) THEN "refused"
    ELSE IF ~Is1(<<"K">>, "full") THEN "wrong"       \* something else is taken for the key list
    ELSE IF \A t \in 1..cur : Whole(t) THEN "all" ELSE "wrong"

CrashSafe == ~cut => View \in {"refused", "all"}
CutSafe   == cut => View \in {"refused", "all"}
(* success reported: nothing is missing, even if the process ends here *)
CloseMeansComplete == (st = "ok" /\ ~cut) => View = "all" /\ Is1(<<"H">>, "new")
=============================================================================
