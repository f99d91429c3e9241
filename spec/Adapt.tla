------------------------------- MODULE Adapt -------------------------------
(***************************************************************************)
(* The adaptive correction.  cfg: [mono \in {1,-1}, log \in BOOLEAN, cut   *)
(* (iterations after which nothing is adapted), scale, expo,   *)
(* target].  Generic over the arithmetic: U(..) below is the recursion on  *)
(* a parameter p with metric m in iteration i.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real

Frozen(cfg, i) == i > cfg.cut
Gain(cfg, i) == RMul(cfg.scale, RPow(i, RNeg(cfg.expo)))
Push(cfg, i, m) == RMul(cfg.mono, RMul(Gain(cfg, i), RSub(m, cfg.target)))
Adapted(cfg, p, i, m) ==
    IF Frozen(cfg, i) THEN p
    ELSE IF cfg.log THEN RMul(p, RExp(RNeg(Push(cfg, i, m)))) ELSE RSub(p, Push(cfg, i, m))

(* simulator-based variant: running mean and variance of the chain, per coordinate *)
Capped(cfg, i) == RMin(Gain(cfg, i), "0.999")
Mix(g, old, new) == RAdd(RMul(RSub("1", g), old), RMul(g, new))
NextVar(cfg, i, mean, var, x) ==
    IF Frozen(cfg, i) THEN var ELSE [k \in 1..Len(x) |-> Mix(Capped(cfg, i), var[k], RSq(RSub(x[k], mean[k])))]
NextMean(cfg, i, mean, x) ==
    IF Frozen(cfg, i) THEN mean ELSE [k \in 1..Len(x) |-> Mix(Capped(cfg, i), mean[k], x[k])]
StepOf(var, d) == VScale(RDiv(RSq("2.38"), d), var)
DefaultStep(d) == RDiv(RSq("2.38"), d)
=============================================================================
