------------------------------- MODULE MCABC -------------------------------
(* All priors and simulators on a small grid, all thresholds; a chain of   *)
(* draws and moves.  Prints the models for the lattice driver.             *)
EXTENDS ABC, TLC, Json

CONSTANT MaxPrior
VARIABLES cfg, s, entered, started
Sims == { << <<2,1,1>>, <<1,2,1>>, <<1,1,2>> >>, << <<4,0,0>>, <<0,4,0>>, <<0,0,4>> >>, << <<0,2,2>>, <<3,1,0>>, <<1,0,3>> >> }
Configs == [prior : { p \in [1..3 -> 0..MaxPrior] : \E x \in 1..3 : p[x] > 0 }, sim : Sims,
            dist : { <<0,1,2>>, <<1,1,2>>, <<2,0,1>> }, thr : 0..3]
Init == /\ cfg \in Configs /\ started = FALSE /\ entered = FALSE
        /\ \E x \in 1..3, y \in 1..3 : cfg.prior[x] > 0 /\ cfg.sim[x][y] > 0 /\ s = [x |-> x, y |-> y]
Draw == /\ ~started /\ started' = TRUE /\ UNCHANGED <<cfg, s>> /\ entered' = Inside(cfg, s.y)
Move == /\ started /\ UNCHANGED <<cfg, started>>
        /\ \E x2 \in 1..3, y2 \in 1..3 :
              /\ x2 # s.x /\ cfg.sim[x2][y2] > 0
              /\ \/ MoveAlpha(cfg, s.x, x2, y2)[1] > 0 /\ s' = [x |-> x2, y |-> y2] /\ entered' = TRUE
                 \/ MoveAlpha(cfg, s.x, x2, y2)[1] < MoveAlpha(cfg, s.x, x2, y2)[2] /\ UNCHANGED <<s, entered>>
Next == Draw \/ Move
Spec == Init /\ [][Next]_<<cfg, s, entered, started>>
Balanced == ABCBalanced(cfg)
StaysInside == entered => Inside(cfg, s.y)
NeverImpossible == cfg.prior[s.x] > 0
Emit == ~started => PrintT("CASE " \o ToJson([prior |-> cfg.prior, sim |-> cfg.sim, dist |-> cfg.dist, thr |-> cfg.thr, x |-> s.x, y |-> s.y]))
=============================================================================
