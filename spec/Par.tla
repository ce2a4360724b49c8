-------------------------------- MODULE Par --------------------------------
(* Separate sessions in separate goroutines at the same time. Each worker is  *)
(* an instance of Sess with variables of its own: a step of one is a stutter  *)
(* of the others, so whatever the interleaving, every worker's history is one *)
(* it could have had alone. The replayer starts one goroutine per worker and  *)
(* compares each with its own history.                                        *)
(*                                                                            *)
(* marks cuts the composed history into rounds: within a round the workers'   *)
(* steps are concurrent, a round starts when all of the previous one is over. *)
(* A worker's construction (inputs, operators, reads, gradients) is one piece *)
(* for this purpose: it takes place in the round in which it ends.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Random, Grads, OpBag, ShapeBag, Dtypes, Avoid, BadBag, MaxIn, MaxConst, MaxOps, MaxTries, ReadMode, CheckInputs, MaxRuns,
          Modes,       \* what each worker does: "none" (values), "sym", "auto"
          MachinesFor, \* bag of machines for each mode
          CutEvery     \* a round ends after about so many steps; 0: never

VARIABLES marks, prog1, vals1, env1, nvar1, dt1, tries1, hist1, ph1, mach1, reads1, wrt1, cost1, runs1,
          prog2, vals2, env2, nvar2, dt2, tries2, hist2, ph2, mach2, reads2, wrt2, cost2, runs2,
          prog3, vals3, env3, nvar3, dt3, tries3, hist3, ph3, mach3, reads3, wrt3, cost3, runs3

vars1 == <<prog1, vals1, env1, nvar1, dt1, tries1, hist1, ph1, mach1, reads1, wrt1, cost1, runs1>>
vars2 == <<prog2, vals2, env2, nvar2, dt2, tries2, hist2, ph2, mach2, reads2, wrt2, cost2, runs2>>
vars3 == <<prog3, vals3, env3, nvar3, dt3, tries3, hist3, ph3, mach3, reads3, wrt3, cost3, runs3>>

wvars == << vars1, vars2, vars3 >>

Mode(w) == Modes[w]
W1 == INSTANCE Sess WITH GradMode <- Mode(1), WithCost <- (Mode(1) # "none"), CheckVals <- FALSE, Machines <- MachinesFor[Mode(1)],
        prog <- prog1, vals <- vals1, env <- env1, nvar <- nvar1, dt <- dt1, tries <- tries1, hist <- hist1, ph <- ph1, mach <- mach1, reads <- reads1, wrt <- wrt1, cost <- cost1, runs <- runs1
W2 == INSTANCE Sess WITH GradMode <- Mode(2), WithCost <- (Mode(2) # "none"), CheckVals <- FALSE, Machines <- MachinesFor[Mode(2)],
        prog <- prog2, vals <- vals2, env <- env2, nvar <- nvar2, dt <- dt2, tries <- tries2, hist <- hist2, ph <- ph2, mach <- mach2, reads <- reads2, wrt <- wrt2, cost <- cost2, runs <- runs2
W3 == INSTANCE Sess WITH GradMode <- Mode(3), WithCost <- (Mode(3) # "none"), CheckVals <- FALSE, Machines <- MachinesFor[Mode(3)],
        prog <- prog3, vals <- vals3, env <- env3, nvar <- nvar3, dt <- dt3, tries <- tries3, hist <- hist3, ph <- ph3, mach <- mach3, reads <- reads3, wrt <- wrt3, cost <- cost3, runs <- runs3

Init == marks = <<>> /\ W1!Init /\ W2!Init /\ W3!Init

Step1 == (W1!Inp \/ W1!Ops \/ W1!Cost \/ W1!Ask \/ W1!NewVM \/ W1!RunStep \/ W1!Reset \/ W1!Let)
         /\ UNCHANGED <<vars2, vars3>>
Step2 == (W2!Inp \/ W2!Ops \/ W2!Cost \/ W2!Ask \/ W2!NewVM \/ W2!RunStep \/ W2!Reset \/ W2!Let)
         /\ UNCHANGED <<vars1, vars3>>
Step3 == (W3!Inp \/ W3!Ops \/ W3!Cost \/ W3!Ask \/ W3!NewVM \/ W3!RunStep \/ W3!Reset \/ W3!Let)
         /\ UNCHANGED <<vars1, vars2>>

Building == {"in", "op", "cost", "ask"}
Shown(p, h) == IF p \in Building THEN 0 ELSE Len(h)
Now == <<Shown(ph1, hist1), Shown(ph2, hist2), Shown(ph3, hist3)>>
Cut == /\ CutEvery > 0
       /\ RandomElement(1..CutEvery) = 1
       /\ Now # <<0, 0, 0>>
       /\ marks = <<>> \/ Now # marks[Len(marks)]

Active == {w \in 1..3 : <<ph1, ph2, ph3>>[w] # "done"}
Next == /\ Active # {}
        /\ \E w \in {RandomElement(Active)} :
             \/ w = 1 /\ Step1
             \/ w = 2 /\ Step2
             \/ w = 3 /\ Step3
        /\ marks' = IF Cut THEN Append(marks, Now) ELSE marks

Emit == (Active = {}) => PrintT("@@" \o ToJson([marks |-> Append(marks, Now), traces |-> <<hist1, hist2, hist3>>]))
=============================================================================
