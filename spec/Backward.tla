------------------------------ MODULE Backward ------------------------------
(***************************************************************************)
(* Backward simulation over filter particles parts[t] = [x, lw], times ts. *)
(*   Last    index at the last time drawn in proportion to exp(lw)         *)
(*   Back    index at t drawn in proportion to                             *)
(*           exp(lw[i]) * transition density from x[i] (time t) to the     *)
(*           already drawn state (time t+1)                                *)
(* The rejection variant proposes from exp(lw) and accepts with            *)
(* probability density/bound, at most `limit' times, then draws as above:  *)
(* the same law as long as the bound dominates the density.                *)
(***************************************************************************)
EXTENDS SSM, SMC

BackwardLogWeight(m, part, s, z, t) ==
    [i \in 1..Len(part.x) |-> IF MinusInf(part.lw[i]) THEN "-Infinity" ELSE RSub(part.lw[i], TransPot(m, part.x[i], s, z, t))]
BackwardLaw(m, part, s, z, t) == NormalisedWeights(BackwardLogWeight(m, part, s, z, t))
\* probability that one proposal is rejected
Rejection(m, part, s, z, t, bound) ==
    LET w == NormalisedWeights(part.lw)
    IN  RSub("1", VSum([i \in 1..Len(w) |-> IF REq(w[i], "0") THEN "0" ELSE RMul(w[i], RDiv(RExp(RNeg(TransPot(m, part.x[i], s, z, t))), bound))]))
=============================================================================
