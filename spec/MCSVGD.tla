------------------------------- MODULE MCSVGD -------------------------------
(* Small ensembles on a grid descend a quadratic potential next to the     *)
(* same ensemble with its particles permuted: the runs stay permutations   *)
(* of each other, one particle alone descends its gradient, and without    *)
(* gradients the ensemble spreads around a fixed mean.  Prints ways of     *)
(* setting up a run.                                                       *)
EXTENDS SVGD, Json

CONSTANT Steps
VARIABLES cfg, xs, ys, s, r, i
Kinds == {"gaussian", "imq", "precond"}
Opts == << [kind |-> "sgd", p1 |-> "0", p2 |-> "0"], [kind |-> "momentum", p1 |-> "0.5", p2 |-> "0"],
           [kind |-> "adagrad", p1 |-> "0.9", p2 |-> "0"], [kind |-> "adam", p1 |-> "0.9", p2 |-> "0.999"] >>
Starts == << << <<"1", "-0.5">> >>, << <<"1", "-0.5">>, <<"0.25", "2">> >>, << <<"-1", "0">>, <<"0.5", "1.5">>, <<"2", "-1">> >> >>
Perm(n) == [k \in 1..n |-> IF k = n THEN 1 ELSE k + 1]
Shuffled(m) == [k \in 1..Len(m) |-> m[Perm(Len(m))[k]]]
K0(kind) == [kind |-> kind, h |-> <<"0.8", "0.8">>, p |-> << <<"1.5", "0.3">>, <<"0.3", "0.7">> >>, c |-> "0.6", beta |-> "-0.7"]
Gradients(m) == IF cfg.flat THEN Zero(m) ELSE [k \in 1..Len(m) |-> <<RMul("2", m[k][1]), RSub(m[k][2], "1")>>]
Now(m) == IF cfg.adapt /\ Len(m) > 1 THEN Adapted(K0(cfg.kind), m) ELSE K0(cfg.kind)
O == Opts[cfg.opt]
Blank(m) == [a |-> Zero(m), b |-> Zero(m)]
Init == /\ cfg \in [kind : Kinds, adapt : BOOLEAN, opt : 1..4, n : 1..3, flat : BOOLEAN]
        /\ xs = Starts[cfg.n] /\ ys = Shuffled(Starts[cfg.n]) /\ s = Blank(xs) /\ r = Blank(xs) /\ i = 0
Down(m) == Forced(MScale("-1", Phi(Now(m), m, Gradients(m))))
Descend == /\ i < Steps
           /\ LET g == Down(xs) h == Down(ys) IN
              /\ s' = NewState(O, s, g) /\ r' = NewState(O, r, h)
              /\ xs' = Moved(O, s', g, xs, "0.125", i + 1) /\ ys' = Moved(O, r', h, ys, "0.125", i + 1)
           /\ i' = i + 1 /\ UNCHANGED cfg
Spec == Init /\ [][Descend]_<<cfg, xs, ys, s, r, i>>

Permuted == MClose(ys, Shuffled(xs), "1e-9", "1e-9")
Alone == (Len(xs) = 1) => MClose(Down(xs), MScale(K(K0(cfg.kind), xs[1], xs[1]), Gradients(xs)), "1e-12", "1e-12")
Balanced == cfg.flat => \A c \in 1..2 : RClose(VSum([k \in 1..Len(xs) |-> Down(xs)[k][c]]), "0", "0", "1e-9")
Repels == (cfg.flat /\ Len(xs) = 2 /\ cfg.opt = 1 /\ i > 0) => RLt(VSumSq(VSub(Starts[2][1], Starts[2][2])), VSumSq(VSub(xs[1], xs[2])))
Emit == (i = 0 /\ ~cfg.flat /\ cfg.n > 1) => PrintT("CASE " \o ToJson([kind |-> cfg.kind, adapt |-> cfg.adapt, opt |-> Opts[cfg.opt].kind, size |-> cfg.n]))
=============================================================================
