-------------------------------- MODULE Vals --------------------------------
(***************************************************************************)
(* Values outside of any graph: scalars and tensors of every element type, *)
(* with the memory they live in.  A register holds a description of a      *)
(* value and the storage it refers to; a row taken from a matrix refers to *)
(* a part of the matrix's storage.  Cloning takes fresh storage, copying   *)
(* and clearing write through to everything that shares the storage.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Functions
CONSTANTS Random, Regs, MaxOps, Dts, Shapes
VARIABLES R, mem, h, n

vars == <<R, mem, h, n>>
Ch(X) == IF Random THEN {RandomElement(X)} ELSE X
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
None == [k |-> "none", dt |-> "", sh |-> <<>>, st |-> 0, off |-> 0]
Elems(dt) == IF dt = "bool" THEN 0..1 ELSE IF dt = "u8" THEN {0, 1, 7, 255} ELSE {0, 1, -2, 5}
Size(v) == Prod(v.sh)
Content(v, m) == [i \in 1..Size(v) |-> m[v.st][v.off + i]]
Same(a, b, m) == a.k = b.k /\ a.dt = b.dt /\ a.sh = b.sh /\ Content(a, m) = Content(b, m)

(* the kinds of values: a plain scalar, and tensors of some shape; a       *)
(* tensor of shape () is a scalar held in a tensor                         *)
Kinds == {[k |-> "prim", sh |-> <<>>]} \cup {[k |-> "tens", sh |-> s] : s \in Shapes}
Fresh(kd, dt, st) == [k |-> kd.k, dt |-> dt, sh |-> kd.sh, st |-> st, off |-> 0]
Desc(v, m) == [k |-> v.k, dt |-> v.dt, sh |-> v.sh, x |-> IF v.k = "none" THEN <<>> ELSE Content(v, m)]
NR == Cardinality(Regs)
Do(e, r2, m2) == /\ R' = r2 /\ mem' = m2 /\ n' = n + 1
                 /\ h' = Append(h, e @@ [regs |-> [q \in 1..NR |-> Desc(r2[q], m2)]])
                 /\ (IF Random THEN n + 1 = MaxOps ELSE n >= 2) => PrintT("@@" \o ToJson(h'))
E(a, r, d) == [a |-> a, r |-> r, d |-> d]
Full(r) == R[r].k # "none"
NewContent(dt, k, p) == IF Random THEN [i \in 1..k |-> RandomElement(Elems(dt))] ELSE [i \in 1..k |-> IF p = 0 THEN 1 ELSE IF i = k THEN 0 ELSE 1]

Put(r, kd, dt, p) == LET v == Fresh(kd, dt, Len(mem) + 1) IN
  \E x \in {TLCEval(NewContent(dt, Size(v), p))} : Do(E("new", r, r), [R EXCEPT ![r] = v], Append(mem, x))
New(r) == \E kd \in Ch(Kinds), dt \in Ch(Dts), p \in (IF Random THEN {0} ELSE {0, 1}) : Put(r, kd, dt, p)
Clone(r, d) == Do(E("clone", r, d), [R EXCEPT ![d] = [R[r] EXCEPT !.st = Len(mem) + 1, !.off = 0]], Append(mem, Content(R[r], mem)))
(* copying into d: same kind, element type and number of elements.  With   *)
(* as many elements but another shape nothing is said.                     *)
Over(r, d) == R[r].st = R[d].st
Fits(r, d) == R[r].k = R[d].k /\ R[r].dt = R[d].dt /\ R[r].sh = R[d].sh
Refused(r, d) == R[r].k # R[d].k \/ R[r].dt # R[d].dt \/ Size(R[r]) # Size(R[d])
Copied(r, d) == [mem EXCEPT ![R[d].st] = [i \in 1..Len(@) |-> IF i > R[d].off /\ i <= R[d].off + Size(R[d]) THEN mem[R[r].st][R[r].off + i - R[d].off] ELSE @[i]]]
Copy(r, d) == \/ Fits(r, d) /\ Do(E("copy", r, d) @@ [ok |-> TRUE], R, Copied(r, d))
              \/ Refused(r, d) /\ Do(E("copy", r, d) @@ [ok |-> FALSE], R, mem)
Zero(r) == Do(E("zero", r, r), R, [mem EXCEPT ![R[r].st] = [i \in 1..Len(@) |-> IF i > R[r].off /\ i <= R[r].off + Size(R[r]) THEN 0 ELSE @[i]]])
(* the library does not tell a vector from a matrix with one row or column *)
VecLike(s) == Len(s) = 1 \/ (Len(s) = 2 /\ (s[1] = 1 \/ s[2] = 1))
Eq(r, d) == /\ R[r].sh = R[d].sh \/ ~VecLike(R[r].sh) \/ ~VecLike(R[d].sh) \/ Size(R[r]) # Size(R[d]) \/ R[r].dt # R[d].dt
            /\ Do(E("eq", r, d) @@ [ok |-> Same(R[r], R[d], mem)], R, mem)
(* closeness: nothing is said when only the shapes differ *)
Close(r, d) == /\ R[r].sh = R[d].sh \/ R[r].dt # R[d].dt \/ Content(R[r], mem) # Content(R[d], mem)
               /\ Do(E("close", r, d) @@ [ok |-> Same(R[r], R[d], mem)], R, mem)
Write(r) == \E i \in Ch(1..Size(R[r])), x \in Ch(Elems(R[r].dt)) :
              Do(E("write", r, r) @@ [i |-> i - 1, x |-> x], R, [mem EXCEPT ![R[r].st][R[r].off + i] = x])
Row(r, d) == /\ R[r].k = "tens" /\ Len(R[r].sh) = 2 /\ r # d
             /\ \E i \in Ch(0..R[r].sh[1] - 1) : LET w == R[r].sh[2] IN
                  /\ w > 1
                  /\ Do(E("row", r, d) @@ [i |-> i], [R EXCEPT ![d] = [R[r] EXCEPT !.sh = <<w>>, !.off = @ + i * w]], mem)

Init == n = 0 /\ R = [r \in Regs |-> None] /\ mem = <<>> /\ h = <<>>
Next == /\ n < MaxOps
        /\ \E r \in Ch(Regs), d \in Ch(Regs) :
             IF Full(r) /\ Full(d)
             THEN \E a \in Ch({"new", "clone", "copy", "zero", "eq", "eq", "close", "write", "row", "copy2"}) :
                    CASE a = "new" -> New(r) [] a = "clone" -> Clone(r, d)
                      [] a \in {"copy", "copy2"} -> Copy(r, d) [] a = "zero" -> Zero(r) [] a = "eq" -> Eq(r, d)
                      [] a = "close" -> Close(r, d) [] a = "write" -> Write(r) [] OTHER -> Row(r, d)
             ELSE IF ~Full(r) THEN New(r)
             ELSE \E a \in Ch({"clone", "row", "clone2"}) : IF a = "row" THEN Row(r, d) ELSE Clone(r, d)
(* every pair of values, one operation between them, and one write after a clone *)
Next1 == \/ n = 0 /\ New(1)
         \/ n = 1 /\ New(2)
         \/ n = 2 /\ (Copy(1, 2) \/ Eq(1, 2) \/ Close(1, 2) \/ (R[1] = [R[2] EXCEPT !.st = 1] /\ (Clone(1, 2) \/ Zero(1) \/ Eq(1, 1) \/ Row(1, 2))))
         \/ n = 3 /\ h[3].a \in {"clone", "row"} /\ (Write(1) \/ Write(2) \/ Zero(1) \/ Zero(2))
(* of the specification itself: memory is only reached through registers *)
Inside == \A r \in Regs : Full(r) => R[r].off + Size(R[r]) <= Len(mem[R[r].st])
=============================================================================
