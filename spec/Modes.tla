-------------------------------- MODULE Modes -------------------------------
(***************************************************************************)
(* Layers with a training and an evaluation mode: batch normalisation,     *)
(* which keeps running statistics, and dropout.                            *)
(*                                                                         *)
(* A network is a chain of layers over one input; the cost is the sum of   *)
(* the last layer times a weight per element.  A history makes machines in *)
(* either mode (which switches every layer), switches single layers, sets  *)
(* and resets statistics, and runs on new batches.                         *)
(*                                                                         *)
(* What dropout draws is not determined: the factor of element k of layer  *)
(* l is the reference 1000 * l + k, which must stand for 0 or 1 / (1 - p). *)
(* Outputs of earlier layers and the running statistics left by the run    *)
(* before are references as well, which keeps terms small.                 *)
(***************************************************************************)
EXTENDS Tens, Json
CONSTANTS Kinds,      \* machines: set of "tape", "lisp"
          GradMode,   \* "none", "sym", "auto"
          Shapes, Dts, Chains, MaxSteps,
          Avoid       \* known defects to stay clear of
VARIABLES net,    \* [dt, s, layers, w]
          lay,    \* per layer: [train, mean, var]
          ph, steps, hist
vars == <<net, lay, ph, steps, hist>>
Pick(S) == {RandomElement(S)}
Q(p) == tDiv(I(p[1]), I(p[2]))
Ref(k) == <<"ref", <<k>>, 1>>
Chan(s) == s[2]
Rand(k) == TLCEval([i \in 1..k |-> RandomElement(-4..4)])
PosRand(k) == TLCEval([i \in 1..k |-> RandomElement(1..4)])
NBatch(s) == NElem(s) \div s[2]

(* variables: x first, then scale and bias of every layer *)
RECURSIVE BaseOf(_, _)
BaseOf(layers, l) == \* of the scale of layer l
  IF l = 1 THEN 100 ELSE BaseOf(layers, l - 1) + 100
VarT(s, v, base) == [s |-> s, x |-> TLCEval([k \in 1..NElem(s) |-> IF GradMode = "none" THEN C(v[k]) ELSE V(v[k], base + k)])]

(* the elements of channel c *)
Channel(t, c) == SelectSeq([k \in 1..Len(t.x) |-> k], LAMBDA k : Unlin(k, t.s)[2] = c)
(* (CHOOSE over one element binds a value: TLC evaluates a LET definition  *)
(* in an action again for every use)                                       *)
Pairs(t, c) == LET q == Channel(t, c) IN TLCEval([i \in 1..Len(q) |-> t.x[q[i]]])
MeanAt(q) == sDiv(SumSeq(q), C(Len(q)))
DevAt(q, m) == SumSeq(TLCEval([i \in 1..Len(q) |-> CHOOSE y \in {sMul(d, d) : d \in {TLCEval(sSub(q[i], m))}} : TRUE]))
Moments(t) == \* mean and sum of squared deviations of every channel
  TLCEval([c \in 0..Chan(t.s) - 1 |->
    CHOOSE y \in {CHOOSE z \in {<<m, TLCEval(DevAt(q, m))>> : m \in {TLCEval(MeanAt(q))}} : TRUE : q \in {Pairs(t, c)}} : TRUE])
Bcast(t, s) == \* a tensor extended along its axes of size 1
  Tab(s, LAMBDA ix : At(t, [i \in 1..Len(s) |-> IF t.s[i] = 1 THEN 0 ELSE ix[i]]))
Stats(t, mo, st) == \* what a batch is normalised with
  TLCEval([c \in 0..Chan(t.s) - 1 |->
    IF st.train THEN <<mo[c][1], TLCEval(sDiv(mo[c][2], C(NBatch(t.s))))>> ELSE <<Const(st.mean[c + 1]), Const(st.var[c + 1])>>])
StdOf(sts, L) == TLCEval([c \in DOMAIN sts |-> sUn("Sqrt", TLCEval(sAdd(sts[c][2], Const(Q(L.eps)))))])
Scaled(t, sts, std) ==
  [s |-> t.s, x |-> TLCEval([k \in 1..Len(t.x) |-> CHOOSE y \in {TLCEval(sDiv(e, std[c])) : c \in {Unlin(k, t.s)[2]}, e \in {TLCEval(sSub(t.x[k], sts[Unlin(k, t.s)[2]][1]))}} : TRUE])]
Norm(t, L, st, mo) ==
  CHOOSE y \in {CHOOSE z \in {Scaled(t, sts, std) : std \in {StdOf(sts, L)}} : TRUE : sts \in {Stats(t, mo, st)}} : TRUE
Moved(t, L, st, mo) == \* the running statistics after a run
  IF ~st.train THEN st
  ELSE LET n == NBatch(t.s)
           m == Q(L.mom)
           mix(new, old) == tAdd(tMul(m, new), tMul(tSub(One, m), old))
       IN  [st EXCEPT !.mean = TLCEval([c \in 1..Chan(t.s) |-> mix(mo[c - 1][1][1], @[c])]),
                      !.var = TLCEval([c \in 1..Chan(t.s) |-> mix(tDiv(mo[c - 1][2][1], I(n - 1)), @[c])])]
Drop(t, l, L, st) ==
  IF ~st.train THEN t
  ELSE IF "dropout-scale" \in Avoid /\ L.p # <<1, 2>> THEN \* leave the derivatives open
    [s |-> t.s, x |-> TLCEval([k \in 1..Len(t.x) |-> <<IF L.p[1] = 0 THEN t.x[k][1] ELSE tMul(t.x[k][1], Ref(1000 * l + k)), dUndef(t.x[k][2])>>])]
  ELSE IF L.p[1] = 0 THEN t
  ELSE [s |-> t.s, x |-> TLCEval([k \in 1..Len(t.x) |-> sMul(t.x[k], Const(Ref(1000 * l + k)))])]
Affine(t, L, base) == \* scale and bias
  CHOOSE y \in {[s |-> t.s, x |-> TLCEval([k \in 1..Len(t.x) |-> TLCEval(sAdd(TLCEval(sMul(sc.x[k], t.x[k])), bi.x[k]))])] :
                  sc \in {Bcast(VarT(L.ps, L.scale, base), t.s)}, bi \in {Bcast(VarT(L.ps, L.bias, base + 50), t.s)}} : TRUE
Out(t, l, mo, x) == \* x: the input of the network
  LET L == net.layers[l]  st == lay[l] IN
  CASE L.k = "bn" -> CHOOSE y \in {Affine(n, L, BaseOf(net.layers, l)) : n \in {Norm(t, L, st, mo)}} : TRUE
    [] L.k = "drop" -> Drop(t, l, L, st)
    [] L.k = "skip" -> Zip(t, x, sAdd)
    [] OTHER -> Map(t, LAMBDA e : sUn(L.k, e))
Named(t, l) == [s |-> t.s, x |-> TLCEval([k \in 1..Len(t.x) |-> <<Ref(100000 * l + k), t.x[k][2]>>])] \* with the values by reference
(* per layer: its input, its output and the moments of the input *)
RECURSIVE Outs(_, _, _)
Outs(t, l, acc) ==
  IF l > Len(net.layers) THEN acc
  ELSE CHOOSE y \in {CHOOSE z \in {CHOOSE u \in {Outs(n, l + 1, a) : n \in {Named(o, l)}, a \in {Append(acc, [in |-> t, out |-> o, mo |-> mo])}} : TRUE
                                   : o \in {Out(t, l, mo, IF l = 1 THEN t ELSE acc[1].in)}} : TRUE
                     : mo \in {IF net.layers[l].k = "bn" THEN Moments(t) ELSE <<>>}} : TRUE

GradOf(e, base, k) == [i \in 1..k |-> IF (base + i) \in DOMAIN e[2] THEN e[2][base + i] ELSE Zero]

Init == /\ net = [dt |-> "", s |-> <<>>, layers |-> <<>>, w |-> <<>>] /\ lay = <<>> /\ ph = "net" /\ steps = 0 /\ hist = <<>>

Zeros(k) == [i \in 1..k |-> Zero]
Ones(k) == [i \in 1..k |-> One]
Net ==
  /\ ph = "net"
  /\ \E s \in Pick(Shapes), d \in Pick(Dts), ch \in Pick(Chains), full \in Pick(BOOLEAN) :
     \E ps \in Pick({s} \cup {[i \in 1..Len(s) |-> IF i = 2 THEN s[2] ELSE 1]}) :
     \E layers \in {TLCEval([l \in 1..Len(ch) |->
          CASE ch[l] = "bn" -> [k |-> "bn", mom |-> RandomElement({<<1, 10>>, <<1, 2>>, <<9, 10>>, <<1, 1>>, <<1, 4>>}), eps |-> RandomElement({<<1, 100>>, <<1, 2>>, <<1, 1>>}),
                                ps |-> ps, scale |-> PosRand(NElem(ps)), bias |-> Rand(NElem(ps)), read |-> full]
            [] ch[l] = "drop" -> [k |-> "drop", p |-> RandomElement({<<1, 2>>, <<1, 4>>, <<3, 4>>, <<1, 10>>, <<0, 1>>}), read |-> TRUE]
            [] OTHER -> [k |-> ch[l], read |-> full]])} :
     \E w \in {PosRand(NElem(s))} :
       /\ net' = [dt |-> d, s |-> s, layers |-> layers, w |-> w]
       /\ lay' = [l \in 1..Len(ch) |-> [train |-> TRUE, mean |-> Zeros(s[2]), var |-> Zeros(s[2])]]
       /\ hist' = <<[a |-> "net", dt |-> d, sh |-> s, layers |-> layers, w |-> w, grad |-> GradMode]>>
  /\ ph' = "machine" /\ UNCHANGED steps

Switched(st, tr) == IF tr THEN [train |-> TRUE, mean |-> Zeros(Len(st.mean)), var |-> Ones(Len(st.var))] ELSE [st EXCEPT !.train = FALSE]
Stateful == {l \in 1..Len(net.layers) : net.layers[l].k \in {"bn", "drop"}}
Norms == {l \in 1..Len(net.layers) : net.layers[l].k = "bn"}
Machine ==
  /\ ph = "machine" \/ (ph = "go" /\ steps < MaxSteps)
  /\ \E kind \in Pick(Kinds), ev \in Pick(BOOLEAN) :
       /\ hist' = Append(hist, [a |-> "machine", kind |-> kind, eval |-> ev])
       /\ lay' = [l \in DOMAIN lay |-> Switched(lay[l], ~ev)]
  /\ ph' = "go" /\ steps' = steps + 1 /\ UNCHANGED net
Mode ==
  /\ ph = "go" /\ steps < MaxSteps
  /\ \E l \in Pick(Stateful), tr \in Pick(BOOLEAN) :
       /\ hist' = Append(hist, [a |-> "mode", l |-> l, train |-> tr])
       /\ lay' = [lay EXCEPT ![l] = Switched(@, tr)]
  /\ steps' = steps + 1 /\ UNCHANGED <<net, ph>>
SetStats ==
  /\ ph = "go" /\ steps < MaxSteps
  /\ IF Norms = {} THEN UNCHANGED <<hist, lay>>
     ELSE \E l \in Pick(Norms) : \E m \in {Rand(net.s[2])}, v \in {PosRand(net.s[2])} :
       /\ hist' = Append(hist, [a |-> "stats", l |-> l, mean |-> m, var |-> v])
       /\ lay' = [lay EXCEPT ![l].mean = [i \in 1..Len(m) |-> I(m[i])], ![l].var = [i \in 1..Len(v) |-> I(v[i])]]
  /\ steps' = steps + 1 /\ UNCHANGED <<net, ph>>
Clear ==
  /\ ph = "go" /\ steps < MaxSteps
  /\ IF Norms = {} THEN UNCHANGED <<hist, lay>>
     ELSE \E l \in Pick(Norms) :
       /\ hist' = Append(hist, [a |-> "clear", l |-> l])
       /\ lay' = [lay EXCEPT ![l].mean = Zeros(Len(@)), ![l].var = Ones(Len(@))]
  /\ steps' = steps + 1 /\ UNCHANGED <<net, ph>>

Vals(t) == [k \in 1..Len(t.x) |-> t.x[k][1]]
Costs(t) == SumSeq(TLCEval([k \in 1..Len(t.x) |-> TLCEval(sMul(t.x[k], C(net.w[k])))]))
Run ==
  /\ ph = "go"
  /\ \E v \in {Rand(NElem(net.s))} : \E x \in {VarT(net.s, v, 0)} : \E os \in {Outs(x, 1, <<>>)} :
     \E cost \in {IF Len(x.x) > 40 THEN C(0) ELSE TLCEval(Costs(Named(os[Len(os)].out, Len(os))))} :
     \E lay2 \in {TLCEval([l \in DOMAIN lay |-> IF net.layers[l].k = "bn" THEN Moved(os[l].in, net.layers[l], lay[l], os[l].mo) ELSE lay[l]])} :
     \E ns \in {SelectSeq([l \in 1..Len(net.layers) |-> l], LAMBDA l : l \in Norms)} :
         /\ lay' = [l \in DOMAIN lay |-> IF l \notin Norms \/ ~lay[l].train THEN lay[l]
                                       ELSE [lay[l] EXCEPT !.mean = [c \in DOMAIN @ |-> Ref(500000 + 100 * l + c)],
                                                           !.var = [c \in DOMAIN @ |-> Ref(600000 + 100 * l + c)]]]
         /\ hist' = Append(hist, [a |-> "run", x |-> v,
               outs |-> [l \in 1..Len(os) |-> [v |-> Vals(os[l].out), in |-> Vals(os[l].in),
                                               drop |-> net.layers[l].k = "drop" /\ lay[l].train /\ net.layers[l].p[1] # 0]],
               cost |-> IF Len(x.x) > 40 THEN <<>> ELSE <<cost[1]>>,
               gx |-> IF GradMode = "none" THEN <<>> ELSE GradOf(cost, 0, NElem(net.s)),
               grads |-> IF GradMode = "none" THEN <<>>
                         ELSE [i \in 1..Len(ns) |-> LET L == net.layers[ns[i]]  b == BaseOf(net.layers, ns[i])
                                                    IN  [l |-> ns[i], scale |-> GradOf(cost, b, NElem(L.ps)), bias |-> GradOf(cost, b + 50, NElem(L.ps))]],
               stats |-> [i \in 1..Len(ns) |-> [l |-> ns[i], mean |-> lay2[ns[i]].mean, var |-> lay2[ns[i]].var]]])
  /\ steps' = steps + 1
  /\ ph' = IF steps + 1 >= MaxSteps THEN "done" ELSE "go"
  /\ (ph' = "done") => PrintT("@@" \o ToJson(hist'))
  /\ UNCHANGED net
Next == \/ Net
        \/ ph = "machine" /\ Machine
        \/ /\ ph = "go"
           /\ \E i \in IF steps + 1 >= MaxSteps THEN {1} ELSE Pick(1..10) :
                \/ i <= 5 /\ Run
                \/ i \in {6, 7} /\ Machine
                \/ i = 8 /\ Mode
                \/ i = 9 /\ SetStats
                \/ i = 10 /\ Clear
=============================================================================
