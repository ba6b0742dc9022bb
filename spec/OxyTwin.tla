------------------------------- MODULE OxyTwin ------------------------------
(***************************************************************************)
(* Several programs write files of their own, each a fixed list of steps,   *)
(* in any interleaving; the steps of one may happen inside a write of       *)
(* another (callbacks and value providers are user code).  A reader works   *)
(* on an old file in between.  What a file holds at the end has to be what  *)
(* it holds when its program runs alone.                                    *)
(* SHARE = "own": a file's state belongs to the file; "counter": records    *)
(* are numbered for the whole process; "registry": what was described once  *)
(* by anybody is not described again; "buffer": one buffer for all trees.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NW, NT, NR, SHARE, GEN
VARIABLES pc, file, cnt, reg, buf, stack, nr, hist
vars == <<pc, file, cnt, reg, buf, stack, nr, hist>>
W == 1..NW

(* the steps of a program: create, the trees, their writes (begin and end), close *)
Steps == <<[op |-> "create", t |-> 0]>> \o [t \in 1..NT |-> [op |-> "build", t |-> t]]
         \o [j \in 1..(2 * NT) |-> [op |-> IF j % 2 = 1 THEN "begin" ELSE "end", t |-> (j + 1) \div 2]]
         \o <<[op |-> "close", t |-> 0]>>
Type(w, t) == (w + t) % 2          \* programs have types in common

Init == /\ pc = [w \in W |-> 1] /\ file = [w \in W |-> <<>>] /\ cnt = [w \in 0..NW |-> 0]
        /\ reg = [w \in 0..NW |-> {}] /\ buf = [w \in 0..NW |-> {}] /\ stack = <<>> /\ nr = 0 /\ hist = <<>>

C(w) == IF SHARE = "counter" THEN 0 ELSE w
R(w) == IF SHARE = "registry" THEN 0 ELSE w
B(w) == IF SHARE = "buffer" THEN 0 ELSE w
Rec(w, x) == Append(file[w], x)

(* while a write is under way only its own end, or steps of others, can follow *)
Step(w) ==
    /\ pc[w] <= Len(Steps)
    /\ LET s == Steps[pc[w]] IN
       /\ s.op = "end" => stack # <<>> /\ stack[Len(stack)] = w
       /\ CASE s.op = "create" -> file' = [file EXCEPT ![w] = <<"head">>] /\ UNCHANGED <<cnt, reg, buf, stack>>
            [] s.op = "build" -> UNCHANGED <<file, cnt, reg, buf, stack>>
            [] s.op = "begin" -> /\ buf' = [buf EXCEPT ![B(w)] = @ \cup {<<w, s.t>>}]
                                 /\ stack' = Append(stack, w) /\ UNCHANGED <<file, cnt, reg>>
            [] s.op = "end" -> /\ file' = [file EXCEPT ![w] = Append(@, [n |-> cnt[C(w)], data |-> buf[B(w)], new |-> Type(w, s.t) \notin reg[R(w)]])]
                               /\ cnt' = [cnt EXCEPT ![C(w)] = @ + 1] /\ reg' = [reg EXCEPT ![R(w)] = @ \cup {Type(w, s.t)}]
                               /\ buf' = [buf EXCEPT ![B(w)] = {}]
                               /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
            [] s.op = "close" -> file' = [file EXCEPT ![w] = Append(@, "keys")] /\ UNCHANGED <<cnt, reg, buf, stack>>
       /\ hist' = Append(hist, [w |-> w, op |-> s.op, t |-> s.t])
    /\ pc' = [pc EXCEPT ![w] = @ + 1] /\ UNCHANGED nr
(* reading an old file, whose types are then known to the process *)
Read == /\ nr < NR /\ nr' = nr + 1 /\ reg' = [reg EXCEPT ![0] = @ \cup {0}]
        /\ hist' = Append(hist, [w |-> 0, op |-> "read", t |-> nr]) /\ UNCHANGED <<pc, file, cnt, buf, stack>>
AllDone == \A w \in W : pc[w] > Len(Steps)
Emit == GEN /\ AllDone /\ nr = NR /\ hist # <<>> /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ hist' = <<>> /\ UNCHANGED <<pc, file, cnt, reg, buf, stack, nr>>
Next == (\E w \in W : Step(w)) \/ Read \/ Emit
Spec == Init /\ [][Next]_vars

Alone(w) == <<"head">> \o [t \in 1..NT |-> [n |-> t - 1, data |-> {<<w, t>>}, new |-> \A u \in 1..(t - 1) : Type(w, u) # Type(w, t)]] \o <<"keys">>
SameAsAlone == \A w \in W : pc[w] > Len(Steps) => file[w] = Alone(w)
View == <<pc, file, cnt, reg, buf, stack, nr>>
=============================================================================
