-------------------------------- MODULE Coll --------------------------------
(***************************************************************************)
(* Node lists used as sets, and node sets.  Registers hold lists (compared *)
(* up to order) and sets; every action says what it returns and what every *)
(* register holds afterwards, so that an operation that damages an operand *)
(* or another collection shows.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Functions, SequencesExt
CONSTANTS Random, U, MaxOps, Regs, MaxLen
VARIABLES L, S, h, n, dead

Ch(X) == IF Random THEN {RandomElement(X)} ELSE X
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE LET r == Uniq(Tail(q)) IN IF Head(q) \in Range(r) THEN r ELSE <<Head(q)>> \o r
NoDup(q) == Len(q) = Cardinality(Range(q))
Lists == UNION {[1..k -> U] : k \in 0..MaxLen}
Sets == SUBSET U
ListOf(X) == SetToSeq(X)

vars == <<L, S, h, n, dead>>
Rec(e, l2, s2, d2) == LET q == SetToSeq(Regs \ d2) IN e @@ [regs |-> q, ls |-> [k \in 1..Len(q) |-> l2[q[k]]], ss |-> [k \in 1..Cardinality(Regs) |-> SetToSeq(s2[k])]]
Do(e, l2, s2, d2) == /\ \A r \in Regs : Len(l2[r]) <= 6 /\ L' = l2 /\ S' = s2 /\ dead' = d2 /\ n' = n + 1
                     /\ h' = Append(h, Rec(e, l2, s2, d2))
E(a, r, s, d) == [a |-> a, r |-> r, s |-> s, d |-> d]

Live == Regs \ dead
(* exhaustive exploration starts from all pairs of collections; the spare  *)
(* capacity of the lists' memory is part of the history                    *)
Init ==
  /\ n = 0 /\ dead = {}
  /\ IF Random
     THEN /\ L = [r \in Regs |-> <<>>] /\ S = [r \in Regs |-> {}]
          /\ h = <<[a |-> "init", r |-> 0, s |-> 0, d |-> 0, ls |-> <<>>, ss |-> <<>>, cap |-> 0]>>
     ELSE \E l1, l2 \in Lists, c \in {0, 6} :
            /\ L = [r \in Regs |-> IF r = 1 THEN l1 ELSE IF r = 2 THEN l2 ELSE <<>>]
            /\ S = [r \in Regs |-> IF r = 1 THEN Range(l1) ELSE IF r = 2 THEN Range(l2) ELSE {}]
            /\ h = <<[a |-> "init", r |-> 0, s |-> 0, d |-> 0, ls |-> [k \in 1..Cardinality(Regs) |-> L[k]],
                     ss |-> [k \in 1..Cardinality(Regs) |-> SetToSeq(S[k])], cap |-> c]>>

New(r) == /\ Random /\ \E q \in {TLCEval([k \in 1..RandomElement(0..4) |-> RandomElement(U)])}, c \in Ch({0, 0, 2, 5}) :
            Do(E("new", r, 0, 0) @@ [x |-> q, cap |-> c], [L EXCEPT ![r] = q], S, dead \ {r})
(* adding to a list gives a list that takes the place of the old one *)
LAdd(r) == \E x \in Ch(U) : Do(E("add", r, 0, 0) @@ [x |-> <<x>>], [L EXCEPT ![r] = IF x \in Range(L[r]) THEN L[r] ELSE Append(L[r], x)], S, dead)
LHas(r) == \E x \in Ch(U) : Do(E("has", r, 0, 0) @@ [x |-> <<x>>, b |-> x \in Range(L[r])], L, S, dead)
LUniq(r) == Do(E("uniq", r, 0, 0), [L EXCEPT ![r] = Uniq(L[r])], S, dead)
LDiff(r, s, d) == /\ NoDup(L[r]) /\ NoDup(L[s]) /\ d \notin {r, s}
                  /\ Do(E("diff", r, s, d), [L EXCEPT ![d] = ListOf(Range(L[r]) \ Range(L[s]))], S, dead \ {d})
LInter(r, s, d) == /\ NoDup(L[r]) /\ NoDup(L[s]) /\ d \notin {r, s}
                   /\ Do(E("inter", r, s, d), [L EXCEPT ![d] = ListOf(Range(L[r]) \cap Range(L[s]))], S, dead \ {d})
LEq(r, s) == /\ NoDup(L[r]) /\ NoDup(L[s])
             /\ Do(E("equals", r, s, 0) @@ [b |-> Range(L[r]) = Range(L[s])], L, S, dead)
LToSet(r, d) == Do(E("toset", r, 0, d), L, [S EXCEPT ![d] = Range(L[r])], dead)
SToList(r, d) == Do(E("tolist", r, 0, d), [L EXCEPT ![d] = ListOf(S[r])], S, dead \ {d})

SAdd(r) == \E x \in Ch(U) : Do(E("sadd", r, 0, 0) @@ [x |-> <<x>>, b |-> x \notin S[r]], L, [S EXCEPT ![r] = @ \cup {x}], dead)
SRem(r) == \E x \in Ch(U) : Do(E("srem", r, 0, 0) @@ [x |-> <<x>>], L, [S EXCEPT ![r] = @ \ {x}], dead)
SHas(r) == \E x \in Ch(U) : Do(E("shas", r, 0, 0) @@ [x |-> <<x>>, b |-> x \in S[r]], L, S, dead)
SAll(r, s) == Do(E("sall", r, s, 0) @@ [b |-> Range(L[s]) \subseteq S[r]], L, S, dead)
Bin(a, r, s, d, X) == Do(E(a, r, s, d), L, [S EXCEPT ![d] = X], dead)
Tst(a, r, s, b) == Do(E(a, r, s, 0) @@ [b |-> b], L, S, dead)
SCard(r) == Do(E("card", r, 0, 0) @@ [c |-> Cardinality(S[r])], L, S, dead)
SClear(r) == Do(E("clear", r, 0, 0), L, [S EXCEPT ![r] = {}], dead)

Step(r, s, d) ==
  \/ New(r)
  \/ r \in Live /\ (LAdd(r) \/ LHas(r) \/ LUniq(r) \/ LToSet(r, d))
  \/ r \in Live /\ s \in Live /\ (LDiff(r, s, d) \/ LInter(r, s, d) \/ LEq(r, s))
  \/ s \in Live /\ SAll(r, s)
  \/ SToList(r, d) \/ SAdd(r) \/ SRem(r) \/ SHas(r) \/ SCard(r) \/ SClear(r)
  \/ Bin("union", r, s, d, S[r] \cup S[s]) \/ Bin("sinter", r, s, d, S[r] \cap S[s])
  \/ Bin("sdiff", r, s, d, S[r] \ S[s]) \/ Bin("symdiff", r, s, d, (S[r] \ S[s]) \cup (S[s] \ S[r]))
  \/ Bin("clone", r, s, d, S[r]) \/ Bin("iter", r, s, d, S[r])
  \/ Tst("subset", r, s, S[r] \subseteq S[s]) \/ Tst("superset", r, s, S[s] \subseteq S[r]) \/ Tst("sequal", r, s, S[r] = S[s])

Next == /\ n < MaxOps
        /\ IF Random THEN \E r \in Ch(Regs), s \in Ch(Regs), d \in Ch(Regs) : Step(r, s, d)
           ELSE \E s \in {1, 2} : Step(1, s, 3)
        /\ n' = MaxOps => PrintT("@@" \o ToJson(h'))
=============================================================================
