---------------------------- MODULE OxyInfoTrace ----------------------------
(***************************************************************************)
(* What the real library gives for the objects attached to a tree, against *)
(* what the file was made with (key of the File event, field info): items  *)
(* are strings, maps from strings to items and lists of items.             *)
(***************************************************************************)
EXTENDS OxyReadTrace
(* a probe is a sequence of steps into the items *)
RECURSIVE At(_, _)
At(x, steps) ==      \* x: the item the steps so far have led to
    CASE steps = <<>> /\ x.k = "str" -> "=" \o x.s
      [] steps = <<>> /\ x.k = "list" -> "#" \o ToString(Len(x.items))
      [] steps = <<>> /\ x.k = "map" -> "map"
      [] steps # <<>> /\ x.k = "list" -> At(x.items[Head(steps).i + 1], Tail(steps))
      [] steps # <<>> /\ x.k = "map" ->
            LET S == SelectSeq(x.pairs, LAMBDA p : p.key = Head(steps).key) IN
            IF S = <<>> THEN "-" ELSE At(S[1].val, Tail(steps))
IInfo == /\ Is("UserInfo") /\ e.res = "ok" /\ e.rt \in DOMAIN rt
         /\ LET S == rt[e.rt] IN
            /\ e.hit = ("info" \in DOMAIN S)
            /\ e.hit => /\ e.info.len = Len(S.info)
                        /\ e.info.empty = (S.info = <<>>)
                        /\ Len(e.info.vals) = Len(e.probe)
                        /\ \A j \in 1..Len(e.probe) : e.info.vals[j] = At([k |-> "list", items |-> S.info], e.probe[j])
         /\ Stay /\ UNCHANGED bad
INext == RNext \/ IInfo
ISpec == RInit /\ [][INext]_rvars
=============================================================================
