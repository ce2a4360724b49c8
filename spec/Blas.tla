-------------------------------- MODULE Blas --------------------------------
(***************************************************************************)
(* A queue of matrix calls.  In the abstract the calls take effect in the  *)
(* order they are made; the concrete back end may delay them until it is   *)
(* flushed, so memory is observed only after a flush.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Random, MaxOps, Room   \* Room: calls the queue holds; MaxOps: calls and flushes
VARIABLES m, h, n, q
Rows == <<2, 2, 3, 2, 3, 1, 2, 3, 2>>
Cols == <<2, 3, 2, 2, 3, 3, 1, 1, 1>>      \* the last three are vectors
Mats == 1..6
Vecs == 7..9
Ch(S) == IF Random THEN {RandomElement(S)} ELSE S
Fix(i) == [k \in 1..(Rows[i] * Cols[i]) |-> ((k * 3 + i) % 5) - 2]
Init == /\ n = 0 /\ q = 0
        /\ m = [i \in 1..9 |-> Fix(i)]
        /\ h = <<[a |-> "init", m |-> [i \in 1..9 |-> [r |-> Rows[i], c |-> Cols[i], v |-> Fix(i)]]]>>
RowsT(i, t) == IF t THEN Cols[i] ELSE Rows[i]
ColsT(i, t) == IF t THEN Rows[i] ELSE Cols[i]
At(i, t, r, c) == IF t THEN m[i][(c - 1) * Cols[i] + r] ELSE m[i][(r - 1) * Cols[i] + c]
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Prod(a, ta, b, tb, al, be, c) ==
  LET K == ColsT(a, ta) IN
  [x \in 1..(Rows[c] * Cols[c]) |->
     LET i == ((x - 1) \div Cols[c]) + 1
         j == ((x - 1) % Cols[c]) + 1
     IN  al * Sum([k \in 1..K |-> At(a, ta, i, k) * At(b, tb, k, j)], K) + be * m[c][x]]
Small(v) == \A k \in 1..Len(v) : v[k] \in -5000..5000
Call(fn, a, ta, b, tb, al, be, c) ==
  /\ q < Room /\ c \notin {a, b}
  /\ RowsT(a, ta) = Rows[c] /\ ColsT(b, tb) = Cols[c] /\ ColsT(a, ta) = RowsT(b, tb)
  /\ \E v \in {TLCEval(Prod(a, ta, b, tb, al, be, c))} :
       /\ TRUE = Small(v)
       /\ m' = [m EXCEPT ![c] = v]
       /\ h' = Append(h, [a |-> fn, x |-> a, tx |-> ta, y |-> b, ty |-> tb, al |-> al, be |-> be, z |-> c])
  /\ q' = q + 1 /\ n' = n + 1
Gemm == \E a \in Ch(Mats), b \in Ch(Mats), ta \in Ch(BOOLEAN), tb \in Ch(BOOLEAN), al \in Ch({1, 2, -1}), be \in Ch({0, 1}) :
          \E c \in Mats : Call("gemm", a, ta, b, tb, al, be, c)
Gemv == \E a \in Ch(Mats), b \in Ch(Vecs), ta \in Ch(BOOLEAN), al \in Ch({1, 2, -1}), be \in Ch({0, 1}) :
          \E c \in Vecs : Call("gemv", a, ta, b, FALSE, al, be, c)
Flush == /\ q' = 0 /\ n' = n + 1 /\ m' = m
         /\ h' = Append(h, [a |-> "flush", m |-> [i \in 1..9 |-> [r |-> Rows[i], c |-> Cols[i], v |-> m[i]]]])
Next == /\ n < MaxOps
        /\ IF n = MaxOps - 1 THEN Flush ELSE Gemm \/ Gemv \/ Flush
        /\ n' = MaxOps => PrintT("@@" \o ToJson(h'))
(* one call of every kind *)
Next1 == /\ n < MaxOps
         /\ IF n = MaxOps - 1 THEN Flush
            ELSE \/ \E a, b, c \in Mats, ta, tb \in BOOLEAN, al \in {1, 2}, be \in {0, 1} : Call("gemm", a, ta, b, tb, al, be, c)
                 \/ \E a \in Mats, b, c \in Vecs, ta \in BOOLEAN, al \in {1, 2}, be \in {0, 1} : Call("gemv", a, ta, b, FALSE, al, be, c)
         /\ n' = MaxOps => PrintT("@@" \o ToJson(h'))
=============================================================================
