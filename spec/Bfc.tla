-------------------------------- MODULE Bfc --------------------------------
(***************************************************************************)
(* A memory allocator seen from outside: it is given a region, hands out   *)
(* blocks of it and takes them back.  Which of the places that fit is      *)
(* handed out is left open; a request may be refused only if none fits.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Align, Sizes, MaxOps

VARIABLES size, live

AlignUp(n) == ((n + Align - 1) \div Align) * Align
Overlap(a, n, b, m) == a < b + m /\ b < a + n
(* an aligned place of n bytes that nobody uses *)
Free(a, n, mem, L) == /\ a % Align = 0 /\ a >= 0 /\ a + n <= mem
                      /\ \A b \in L : ~Overlap(a, n, b[1], b[2])
Places(n, mem, L) == {a \in {k * Align : k \in 0..((mem - 1) \div Align)} : Free(a, n, mem, L)}

Alloc(n, a) == /\ n > 0 /\ Free(a, n, size, live)
               /\ live' = live \cup {<<a, n>>} /\ UNCHANGED size
(* a request is counted in whole units of the alignment *)
Refuse(n) == /\ n <= 0 \/ Places(AlignUp(n), size, live) = {}
             /\ UNCHANGED <<size, live>>
Release(a) == /\ live' = {b \in live : b[1] # a} /\ UNCHANGED size

(* the allocator on its own, for checking the specification *)
Init == size \in {3 * Align, 4 * Align + 2} /\ live = {}
Next == \/ \E n \in Sizes : \/ \E a \in Places(n, size, live) : Alloc(n, a)
                            \/ Refuse(n)
        \/ \E b \in live : Release(b[1])
NoOverlap == \A b, d \in live : b # d => ~Overlap(b[1], b[2], d[1], d[2])
Inside == \A b \in live : b[1] >= 0 /\ b[1] + b[2] <= size /\ b[1] % Align = 0
=============================================================================
