------------------------------- MODULE BfcGen -------------------------------
(***************************************************************************)
(* Histories of requests to an allocator: allocate a size, release the     *)
(* k-th of the blocks that are out, release an address that is not out.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Align, Sizes, MaxLive, MaxOps, Mems, Random, Starts
VARIABLES h, n
Ch(S) == IF Random THEN {RandomElement(S)} ELSE S
Init == \E m \in Mems, s \in Starts : h = <<[a |-> "reserve", n |-> m, s |-> s, al |-> Align]>> /\ n = 0
Acts == {[a |-> "alloc", n |-> x] : x \in Sizes} \cup (IF n = 0 THEN {} ELSE {[a |-> "free", n |-> k] : k \in 0..MaxLive-1})
        \cup (IF Random THEN {[a |-> "alloc", n |-> x] : x \in Sizes \cup {0}} \cup {[a |-> "bogus", n |-> 7]} ELSE {})
Next == /\ n < MaxOps
        /\ \E x \in Ch(Acts) : h' = Append(h, x) /\ n' = n + 1
        /\ n' = MaxOps => PrintT("@@" \o ToJson(h'))
=============================================================================
