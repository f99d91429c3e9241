-------------------------------- MODULE SMC --------------------------------
(***************************************************************************)
(* Tempered ensembles.  An ensemble s is                                   *)
(*   [t (temperature), lw (log weights), z (log evidence), lik]            *)
(* and one iteration is                                                    *)
(*   Resample  exactly when the effective sample size is at or below the   *)
(*             threshold: ancestors by weight, log weights zero            *)
(*   Move      every particle by the Markov kernel at temperature t        *)
(*   Advance   to the next temperature u: lw := lw - (u-t) lik,            *)
(*             z := z + ln(total weight after) - ln(total weight before)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real

LogEss(lw) == RSub(RMul("2", VLogSumExp(lw)), VLogSumExp(VScale("2", lw)))
Ess(lw) == RExp(LogEss(lw))
ResampleDue(lw, thr) == RLe(Ess(lw), RMul(thr, Len(lw)))
\* recomputation in double precision cannot tell which side of a tie single precision fell on
OnTheEdge(lw, thr) == RLe(RAbs(RSub(Ess(lw), RMul(thr, Len(lw)))), RMul("0.0005", Len(lw)))
Zeros(n) == [k \in 1..n |-> "0"]
CarriedOver(lw, thr) == IF ResampleDue(lw, thr) THEN Zeros(Len(lw)) ELSE lw
MinusInf(a) == REq(a, "-Infinity")
Reweighted(lw, dt, lik) ==
    [k \in 1..Len(lw) |-> IF MinusInf(lw[k]) THEN lw[k] ELSE RSub(lw[k], RMul(dt, lik[k]))]
NormalisedWeights(lw) == LET z == VLogSumExp(lw) IN [k \in 1..Len(lw) |-> RExp(RSub(lw[k], z))]

(* The ladder *)
StripZero(s) == IF Len(s) > 0 /\ REq(s[1], "0") THEN Tail(s) ELSE s
\* adaptive rung u from t: keeps the fraction of the effective sample size, or is the maximum
Keeps(lw, t, u, lik) == LogEss(Reweighted(lw, RSub(u, t), lik))
=============================================================================
