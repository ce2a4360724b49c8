------------------------------ MODULE Weights ------------------------------
(***************************************************************************)
(* Initial values and random nodes.                                        *)
(*                                                                         *)
(* An initialiser fills a new node: with the elements it promises, or with *)
(* draws from a distribution given by support, mean and variance (exact    *)
(* rationals).  A random node draws anew in every run; what is computed    *)
(* from it in that run sees that draw.  The draws of many runs spread like *)
(* the distribution.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Random, MaxOps, MaxRuns, Repeat, Shapes, Large, Mode
VARIABLES h, n, nodes, ph, runs

vars == <<h, n, nodes, ph, runs>>
Ch(X) == IF Random THEN {RandomElement(X)} ELSE X
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
Q(a, b) == <<a, b>>
Elems(s, F(_)) == [i \in 1..Prod(s) |-> F(i)]

(* ---- initialisers: a, b are their parameters in tenths where they are not whole *)
Whole(dt) == dt \in {"int", "i64", "i32", "u8"}
Exact == {[fn |-> "zeroes", dt |-> dt, a |-> 0, b |-> 0] : dt \in {"f64", "f32", "int", "i64", "i32", "u8"}}
         \cup {[fn |-> "ones", dt |-> dt, a |-> 0, b |-> 0] : dt \in {"f64", "f32", "int", "i64", "i32"}}
         \cup {[fn |-> "from", dt |-> dt, a |-> a, b |-> 0] : dt \in {"f64", "f32", "int", "i64", "i32"}, a \in {0, 3, -4}}
         \cup {[fn |-> "step", dt |-> dt, a |-> a, b |-> b] : dt \in {"f64", "f32", "int"}, a \in {0, 5, -3}, b \in {1, 2, -3, 0}}
         \cup {[fn |-> "of", dt |-> dt, a |-> a, b |-> 0] : dt \in {"f64", "f32", "int"}, a \in {0, 7, -2}}
ExactElems(i, s) ==
  CASE i.fn = "zeroes" -> Elems(s, LAMBDA k : 0)
    [] i.fn = "ones" -> Elems(s, LAMBDA k : 1)
    [] i.fn = "from" -> Elems(s, LAMBDA k : i.a + k - 1)
    [] i.fn = "step" -> Elems(s, LAMBDA k : i.a + (k - 1) * i.b)
    [] i.fn = "of" -> Elems(s, LAMBDA k : i.a)

(* distributions: [sup, mean, var] *)
Drawn == {[fn |-> "uniform", dt |-> dt, a |-> p[1], b |-> p[2]] : dt \in {"f64", "f32"}, p \in {<<0, 1>>, <<-2, 2>>, <<3, 5>>, <<-4, -1>>}}
         \cup {[fn |-> "gaussian", dt |-> dt, a |-> p[1], b |-> p[2]] : dt \in {"f64", "f32"}, p \in {<<0, 1>>, <<5, 2>>, <<-3, 1>>, <<0, 3>>}}
         \cup {[fn |-> "binomial", dt |-> dt, a |-> p[1], b |-> p[2]] : dt \in {"f64", "f32"}, p \in {<<1, 5>>, <<4, 2>>, <<10, 9>>, <<3, 0>>, <<5, 10>>}}
Fans == {[fn |-> fn, dt |-> dt, a |-> a, b |-> 0] : fn \in {"glorotn", "glorotu"}, dt \in {"f64", "f32"}, a \in {1, 2}}
        \cup {[fn |-> fn, dt |-> "f64", a |-> a, b |-> 0] : fn \in {"hen", "heu"}, a \in {1, 2}}
(* Glorot and Bengio: the sum of the two fans, each counting the size of the receptive field *)
GlorotFan(s) == (IF Len(s) = 1 THEN 1 + s[1] ELSE s[1] + s[2]) * (IF Len(s) > 2 THEN Prod(SubSeq(s, 3, Len(s))) ELSE 1)
(* He et al. *)
HeFan(s) == IF Len(s) = 2 THEN s[1] ELSE Prod(Tail(s))
Dist(i, s) ==
  CASE i.fn = "uniform" -> [sup |-> "uniform", mean |-> Q(i.a + i.b, 2), var |-> Q((i.b - i.a) * (i.b - i.a), 12)]
    [] i.fn = "gaussian" -> [sup |-> "normal", mean |-> Q(i.a, 1), var |-> Q(i.b * i.b, 1)]
    [] i.fn = "binomial" -> [sup |-> "count", mean |-> Q(i.a * i.b, 10), var |-> Q(i.a * i.b * (10 - i.b), 100)]  \* probability b/10
    [] i.fn = "glorotn" -> [sup |-> "normal", mean |-> Q(0, 1), var |-> Q(2 * i.a * i.a, GlorotFan(s))]
    [] i.fn = "glorotu" -> [sup |-> "uniform", mean |-> Q(0, 1), var |-> Q(2 * i.a * i.a, GlorotFan(s))]
    [] i.fn = "hen" -> [sup |-> "normal", mean |-> Q(0, 1), var |-> Q(i.a * i.a, HeFan(s))]
    [] i.fn = "heu" -> [sup |-> "uniform", mean |-> Q(0, 1), var |-> Q(i.a * i.a, HeFan(s))]
Applies(i, s) == /\ i.fn \in {"glorotn", "glorotu"} => Len(s) >= 1
                 /\ i.fn \in {"hen", "heu"} => Len(s) >= 2
                 /\ i.fn # "binomial"   \* there is no such initialiser
                 /\ i.dt = "u8" => i.fn = "zeroes"
WInit(how) == [i \in {"fn", "dt", "a", "b"} |-> how[i]]
Make ==
  /\ Mode = "init"
  /\ \E s \in Ch(Shapes \cup Large) : \E i \in Ch({x \in Exact \cup Drawn \cup Fans : Applies(x, s)}) :
       /\ h' = Append(h, [a |-> "init", i |-> i, sh |-> s]
                         @@ (IF i \in Exact THEN [x |-> ExactElems(i, s)] ELSE [d |-> Dist(i, s)]))
       /\ UNCHANGED <<nodes, ph, runs>>
  /\ n' = n + 1
  /\ (n' = MaxOps) => PrintT("@@" \o ToJson(h'))

(* ---- graphs with random nodes *)
Has(dt, s) == {k \in 1..Len(nodes) : nodes[k].dt = dt /\ nodes[k].sh = s}
Put(e, node) == /\ nodes' = Append(nodes, node) /\ h' = Append(h, e @@ [id |-> Len(nodes) + 1]) /\ n' = n + 1 /\ UNCHANGED <<ph, runs>>
(* the same call again gives the same node or another one: both are fine, so it is not made *)
Rand == /\ ph = "build" /\ n < MaxOps
        /\ \E i \in Ch(Drawn) : \E s \in Ch(IF nodes # <<>> /\ Random /\ n % 2 = 1 THEN {nodes[1].sh} ELSE Shapes) :
             /\ \A k \in 1..Len(nodes) : ~(nodes[k].k = "rand" /\ nodes[k].i = i /\ nodes[k].sh = s)
             /\ Put([a |-> "rand", i |-> i, sh |-> s, d |-> Dist(i, s)], [k |-> "rand", i |-> i, dt |-> i.dt, sh |-> s])
Inp == /\ ph = "build" /\ n < MaxOps
       /\ \E s \in Ch(IF nodes # <<>> THEN {nodes[k].sh : k \in 1..Len(nodes)} ELSE Shapes) : \E dt \in Ch(IF nodes # <<>> THEN {nodes[1].dt} ELSE {"f64", "f32"}) :
            Put([a |-> "in", dt |-> dt, sh |-> s, x |-> Elems(s, LAMBDA k : ((k * 5 + n) % 9) - 4)], [k |-> "in", i |-> 0, dt |-> dt, sh |-> s])
Op == /\ ph = "build" /\ n < MaxOps /\ nodes # <<>>
      /\ \E op \in Ch({"Add", "Sub", "HadamardProd", "Neg", "Square"}) : \E p \in Ch(1..Len(nodes)) :
         \E q \in Ch(Has(nodes[p].dt, nodes[p].sh)) :
           LET args == IF op \in {"Neg", "Square"} THEN <<p>> ELSE <<p, q>>
           IN  /\ \A k \in 1..Len(nodes) : nodes[k].k = "op" => nodes[k].i # <<op, args>>
               /\ Put([a |-> "op", op |-> op, args |-> args, dt |-> nodes[p].dt, sh |-> nodes[p].sh], [k |-> "op", i |-> <<op, args>>, dt |-> nodes[p].dt, sh |-> nodes[p].sh])
Built == /\ ph = "build" /\ n >= MaxOps
         /\ ph' = "run" /\ n' = n + 1 /\ UNCHANGED <<nodes, runs>>
         /\ \E m \in Ch({"tape", "trace", "lisp"}) : h' = Append(h, [a |-> "vm", m |-> m])
Run == /\ ph = "run" /\ runs < MaxRuns
       /\ runs' = runs + 1 /\ UNCHANGED <<nodes, n, ph>>
       /\ h' = Append(h, [a |-> "run", times |-> Repeat])
       /\ (runs' = MaxRuns) => PrintT("@@" \o ToJson(h'))
(* a random choice may be one that is not possible *)
Idle == Random /\ Mode = "graph" /\ ph = "build" /\ n < MaxOps /\ UNCHANGED vars
Init == h = <<>> /\ n = 0 /\ nodes = <<>> /\ ph = "build" /\ runs = 0
Next == IF Mode = "init" THEN n < MaxOps /\ Make
        ELSE \/ \E c \in Ch(1..5) : IF c = 1 \/ nodes = <<>> THEN Rand ELSE IF c = 2 THEN Inp ELSE Op
             \/ Built \/ Run \/ Idle
(* of the specification *)
Sane == \A k \in 1..Len(h) : h[k].a \in {"init", "rand"} /\ "d" \in DOMAIN h[k] => h[k].d.var[1] >= 0 /\ h[k].d.var[2] > 0
=============================================================================
