-------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* The update rules of the solvers, element by element.  A configuration   *)
(* is a record of the kind of solver and the options given.                *)
(***************************************************************************)
EXTENDS Alg
(* rationals, registers *)
rQ(q) == tDiv(I(q[1]), I(q[2]))
rRef(k) == <<"ref", <<k>>, 1>>

rHalves == {<<1, 2>>, <<1, 4>>, <<3, 4>>}
rChoices == [eta |-> {<<1, 2>>, <<1, 1>>, <<1, 10>>, <<2, 1>>},
            eps |-> {<<1, 4>>, <<1, 1000>>},
            rho |-> rHalves \cup {<<9, 10>>}, b1 |-> rHalves \cup {<<9, 10>>}, b2 |-> rHalves \cup {<<99, 100>>},
            mom |-> rHalves \cup {<<1, 1>>},
            l1 |-> rHalves \cup {<<2, 1>>}, l2 |-> rHalves \cup {<<2, 1>>},
            batch |-> {<<1, 1>>, <<2, 1>>, <<4, 1>>, <<3, 1>>},
            clip |-> {<<1, 2>>, <<1, 1>>, <<2, 1>>}]
rTakes(kind) ==
  CASE kind = "vanilla"  -> {"eta", "l1", "l2", "batch", "clip"}
    [] kind = "momentum" -> {"eta", "mom", "l1", "l2", "batch", "clip"}
    [] kind = "rmsprop"  -> {"eta", "eps", "rho", "l2", "clip"}
    [] kind = "adagrad"  -> {"eta", "eps", "l2", "clip"}
    [] kind = "adam"     -> {"eta", "eps", "b1", "b2", "l1", "l2", "batch", "clip"}
    [] kind = "adamw"    -> {"eta", "eps", "rho", "b1", "b2", "l1", "l2", "batch", "clip"}
    [] kind = "bb"       -> {"eta", "clip"}
rDefault(kind, o) ==
  CASE o = "eta" -> <<1, 1000>>
    [] o = "eps" -> <<1, 100000000>>
    [] o = "rho" -> IF kind = "adamw" THEN <<1, 100>> ELSE <<999, 1000>>
    [] o = "b1"  -> <<9, 10>>
    [] o = "b2"  -> <<999, 1000>>
    [] o = "mom" -> <<9, 10>>
    [] o = "batch" -> <<1, 1>>
    [] OTHER -> <<0, 1>>
rGiven(cfg, o) == o \in DOMAIN cfg.opts
rOpt(cfg, o) == rQ(IF rGiven(cfg, o) THEN cfg.opts[o] ELSE rDefault(cfg.kind, o))

rMinus1(x) == tSub(One, x)
rClip(cfg, g) == IF rGiven(cfg, "clip") THEN tMin(tMax(g, tNeg(rOpt(cfg, "clip"))), rOpt(cfg, "clip")) ELSE g
(* what is added to and done with the gradient before it is used *)
rPrep(cfg, w, g) ==
  LET g1 == IF rGiven(cfg, "l1") THEN tAdd(g, tMul(rOpt(cfg, "l1"), tSign(w))) ELSE g
      g2 == IF rGiven(cfg, "l2") THEN tAdd(g1, tMul(rOpt(cfg, "l2"), w)) ELSE g1
      g3 == tDiv(g2, rOpt(cfg, "batch"))
  IN  rClip(cfg, g3)
rDecay(cfg, w) == IF rGiven(cfg, "l2") THEN tMul(rOpt(cfg, "l2"), w) ELSE Zero
RECURSIVE rTPow(_, _)
rTPow(x, k) == IF k = 1 THEN x ELSE tMul(x, rTPow(x, k - 1))
(* new w, m, v of an element; k-th step *)
rRule(cfg, w, m, v, g, k) ==
  LET e == rOpt(cfg, "eta") IN
  CASE cfg.kind = "vanilla" -> <<tSub(w, tMul(e, rPrep(cfg, w, g))), m, v>>
    [] cfg.kind = "momentum" ->
         LET m2 == tSub(tMul(m, rOpt(cfg, "mom")), tMul(e, rPrep(cfg, w, g))) IN <<tAdd(w, m2), m2, v>>
    [] cfg.kind = "rmsprop" ->
         LET m2 == tAdd(tMul(m, rOpt(cfg, "rho")), tMul(rMinus1(rOpt(cfg, "rho")), tMul(g, g)))
         IN  <<tSub(tSub(w, tDiv(tMul(e, rClip(cfg, g)), tSqrt(tAdd(m2, rOpt(cfg, "eps"))))), rDecay(cfg, w)), m2, v>>
    [] cfg.kind = "adagrad" ->
         LET m2 == tAdd(m, tMul(g, g))
         IN  <<tSub(tSub(w, tDiv(tMul(e, rClip(cfg, g)), tSqrt(tAdd(m2, rOpt(cfg, "eps"))))), rDecay(cfg, w)), m2, v>>
    [] cfg.kind \in {"adam", "adamw"} ->
         LET q == rPrep(cfg, w, g)
             m2 == tAdd(tMul(m, rOpt(cfg, "b1")), tMul(rMinus1(rOpt(cfg, "b1")), q))
             v2 == tAdd(tMul(v, rOpt(cfg, "b2")), tMul(rMinus1(rOpt(cfg, "b2")), tMul(q, q)))
             mh == tDiv(m2, rMinus1(rTPow(rOpt(cfg, "b1"), k)))
             vh == tDiv(v2, rMinus1(rTPow(rOpt(cfg, "b2"), k)))
             w1 == IF cfg.kind = "adamw" THEN tMul(w, rMinus1(tMul(e, rOpt(cfg, "rho")))) ELSE w
         IN  <<tSub(w1, tDiv(tMul(e, mh), tAdd(tSqrt(vh), rOpt(cfg, "eps")))), m2, v2>>
    [] cfg.kind = "bb" -> <<tSub(w, tMul(rRef(0), g)), m, v>>
=============================================================================
