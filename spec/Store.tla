------------------------------- MODULE Store -------------------------------
(* Partial functions with a growing domain, and a few sequence helpers used by every module. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]
Empty        == [x \in {} |-> 0]
Has(f, k)    == k \in DOMAIN f

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
MaxOf(S)  == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S)  == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
