------------------------------- MODULE ABCSMC -------------------------------
(***************************************************************************)
(* Simulator-based ensembles.  A particle is alive at threshold thr unless *)
(* its distance exceeds thr.  One iteration:                               *)
(*   Renew    when fewer than cfg.resample * n are alive: every particle   *)
(*            becomes a copy of a living one, all alive                    *)
(*   Move     living particles, any number of times: to a distance         *)
(*            strictly below thr, or not at all; dead ones stay            *)
(*   Impose   the next threshold: the living are those not beyond it       *)
(* It stops when hardly any move is accepted or the iterations are used up.*)
(***************************************************************************)
EXTENDS ABC

Dead(distance, threshold) == RLt(threshold, distance)
LivingIndices(lw) == { k \in 1..Len(lw) : REq(lw[k], "0") }
=============================================================================
