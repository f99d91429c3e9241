------------------------------ MODULE MCAdapt ------------------------------
(* The recursion in integers (gain constant, parameter counted in units of *)
(* the gain: a logarithm if cfg.log), for all sequences of metrics below,  *)
(* at and above the target.  Checks direction, boundedness and freezing;   *)
(* prints every sequence of metrics for replay in the real correction.     *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Len_, Cuts
VARIABLES cfg, p, i, ms, hist

Metrics == {0, 1, 2}      \* target is 1
Init == /\ cfg \in [mono : {1, -1}, log : BOOLEAN, cut : Cuts]
        /\ p = 0 /\ i = 0 /\ ms = <<>> /\ hist = <<0>>
IsFrozen(n) == n > cfg.cut
Step(m) == LET q == IF IsFrozen(i + 1) THEN p ELSE p - cfg.mono * (m - 1)
           IN /\ p' = q /\ i' = i + 1 /\ ms' = Append(ms, m) /\ hist' = Append(hist, q) /\ UNCHANGED cfg
Next == i < Len_ /\ \E m \in Metrics : Step(m)
Spec == Init /\ [][Next]_<<cfg, p, i, ms, hist>>

Direction == \A k \in 1..i : ~IsFrozen(k) =>
    LET move == hist[k+1] - hist[k]
    IN  /\ ms[k] = 1 => move = 0
        /\ ms[k] = 2 => move = -cfg.mono      \* metric too high: the parameter moves so that the metric falls
        /\ ms[k] = 0 => move = cfg.mono
FreezesForever == \A k \in 1..i : IsFrozen(k) => hist[k+1] = hist[k]
Bounded == p <= Len_ /\ -p <= Len_
Emit == i = Len_ => PrintT("CASE " \o ToJson([mono |-> cfg.mono, log |-> cfg.log, cut |-> cfg.cut, ms |-> ms]))
=============================================================================
