---------------------------- MODULE MCLeapfrog ----------------------------
(* The same moves on a ring of M points with any gradient table (stepsize  *)
(* two, so that half steps are integers): the integrator is a bijection    *)
(* retraced by negated momenta; momenta survive acceptance and reverse on  *)
(* rejection when there is no friction.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS M, MaxL
VARIABLES g, L, x, p, phase, before, prop

Ring == 0..M-1
Mod(a) == a % M
Step(s) == LET ph == Mod(s[2] - g[s[1] + 1])  x2 == Mod(s[1] + 2 * ph) IN <<x2, Mod(ph - g[x2 + 1])>>
RECURSIVE Leap(_, _)
Leap(s, k) == IF k = 0 THEN s ELSE Leap(Step(s), k - 1)
Neg(s) == <<s[1], Mod(-s[2])>>

Init == /\ g \in [1..M -> Ring] /\ L \in 1..MaxL /\ x \in Ring /\ p \in Ring
        /\ phase = "at" /\ before = <<x, p, "kept">> /\ prop = <<x, p>>
Refresh == phase = "at" /\ phase' = "refreshed" /\ p' = Mod(-p) /\ UNCHANGED <<g, L, x, before, prop>>
Propose == phase = "refreshed" /\ phase' = "proposed" /\ prop' = Neg(Leap(<<x, p>>, L)) /\ UNCHANGED <<g, L, x, p, before>>
Accept == phase = "proposed" /\ phase' = "done" /\ before' = <<x, p, "accepted">> /\ x' = prop[1] /\ p' = prop[2] /\ UNCHANGED <<g, L, prop>>
Reject == phase = "proposed" /\ phase' = "done" /\ before' = <<x, p, "rejected">> /\ UNCHANGED <<g, L, x, p, prop>>
Next == Refresh \/ Propose \/ Accept \/ Reject
Spec == Init /\ [][Next]_<<g, L, x, p, phase, before, prop>>

Reversible == Neg(Leap(Neg(Leap(<<x, p>>, L)), L)) = <<x, p>>
Bijective == phase = "at" => Cardinality({ Step(s) : s \in Ring \X Ring }) = M * M
Involution == phase = "proposed" => Neg(Leap(prop, L)) = <<x, p>>      \* proposing from the proposal leads back: symmetric
\* the refreshed momentum of the *next* transition (without friction) is the integrated one after acceptance, the reversed one after rejection
NextMomentum == phase = "done" =>
    Mod(-p) = (IF before[3] = "accepted" THEN Leap(<<before[1], before[2]>>, L)[2] ELSE Mod(-before[2]))
=============================================================================
