------------------------------ MODULE OxyPack ------------------------------
(***************************************************************************)
(* A record stored compressed: a sequence of blocks, each saying how it is *)
(* packed, how many bytes it takes and how many it gives.  The reader      *)
(* knows from the record how many bytes it must get.  Every block may be   *)
(* sound or damaged in one of several ways; damage is noticed, never       *)
(* turned into values.                                                     *)
(***************************************************************************)
EXTENDS Store, TLC, Json
CONSTANTS MaxBlocks, Kinds, Damages, FirstOnly, Gen
VARIABLES blocks, left, got, ph, i
pvars == <<blocks, left, got, ph, i>>
(* sizes in units: a block gives one unit for itself; what it holds is its number *)
PInit == blocks = <<>> /\ left = 0 /\ got = <<>> /\ ph = "pack" /\ i = 1
Sound(b) == b.dmg = "none"
Pack(k, d) ==
    /\ ph = "pack" /\ Len(blocks) < MaxBlocks
    /\ (d # "none" => \A j \in 1..Len(blocks) : Sound(blocks[j]))       \* one damage at most
    /\ blocks' = Append(blocks, [kind |-> k, dmg |-> d])
    /\ UNCHANGED <<left, got, ph, i>>
Store2 == /\ ph = "pack" /\ blocks # <<>> /\ ph' = "open" /\ left' = Len(blocks) /\ UNCHANGED <<blocks, got, i>>
          /\ (~Gen \/ PrintT("BEHAVIOUR " \o ToJson([blocks |-> blocks])))
Block ==
    /\ ~Gen /\ ph = "open" /\ left > 0 /\ i <= Len(blocks)
    /\ IF Sound(blocks[i])
       THEN /\ got' = Append(got, i) /\ i' = i + 1 /\ ph' = (IF FirstOnly \/ left = 1 THEN "values" ELSE "open") /\ left' = left - 1
       ELSE ph' = "refused" /\ UNCHANGED <<got, i, left>>
    /\ UNCHANGED blocks
PNext == \/ \E k \in Kinds, d \in Damages \cup {"none"} : Pack(k, d)
         \/ Store2
         \/ Block
PSpec == PInit /\ [][PNext]_pvars
AsPlain == ph = "values" => got = [j \in 1..Len(blocks) |-> j]
DamageNoticed == ph = "values" => \A j \in 1..Len(blocks) : Sound(blocks[j])
=============================================================================
