------------------------------- MODULE MCEKI -------------------------------
(* Ladders of temperatures over a grid, climbed by an infinite ensemble of *)
(* a linear Gaussian model: at every rung its moments are those of the     *)
(* posterior at that temperature, whatever the rungs before (increments of *)
(* at most one).  Prints the ladders.                                      *)
EXTENDS EKI, TLC, Json, FiniteSets

CONSTANTS Grid, Top
VARIABLES model, t, rungs, mom, budget, phase

H == << << <<"1", "0.5">>, <<"-0.3", "2">>, <<"0.7", "0.7">> >>, << <<"1.5", "-1">> >> >>
RR == << << <<"0.5", "0.1", "0">>, <<"0.1", "0.8", "0.2">>, <<"0", "0.2", "0.3">> >>, << <<"0.4">> >> >>
D == << <<"1", "-2", "0.5">>, <<"3">> >>
M0 == <<"0.2", "-0.1">>
P0 == << <<"1.3", "0.4">>, <<"0.4", "0.7">> >>
Temp(k) == RDiv(k, Grid)
Alpha(k, j) == Inflation(Temp(k), Temp(j))

Init == model \in 1..2 /\ t = 0 /\ rungs = <<>> /\ mom = [m |-> M0, p |-> P0] /\ budget \in 1..4 /\ phase = "run"
Step == /\ phase = "run" /\ t < Top /\ Len(rungs) < budget
        /\ \E u \in t + 1..Top :
              /\ u - t <= Grid \/ rungs = <<>>
              /\ t' = u /\ rungs' = Append(rungs, u)
              /\ mom' = IF u - t <= Grid THEN LinearStep(mom.m, mom.p, H[model], RR[model], D[model], Alpha(t, u))
                        ELSE LinearStep(mom.m, mom.p, H[model], RR[model], D[model], "1")   \* perturbations cannot shrink the noise
        /\ UNCHANGED <<model, budget, phase>>
Stop == phase = "run" /\ (t = Top \/ Len(rungs) = budget) /\ phase' = "done" /\ UNCHANGED <<model, t, rungs, mom, budget>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_<<model, t, rungs, mom, budget, phase>> /\ WF_<<model, t, rungs, mom, budget, phase>>(Next)

Small == \A i \in 1..Len(rungs) : rungs[i] - (IF i = 1 THEN 0 ELSE rungs[i-1]) <= Grid
OnTempered == Small => LET w == Tempered(M0, P0, H[model], RR[model], D[model], Temp(t))
              IN VClose(mom.m, w.m, "1e-9", "1e-9") /\ MClose(mom.p, w.p, "1e-9", "1e-9")
Capped == t <= Top
Climbing == \A i \in 1..Len(rungs) - 1 : rungs[i] < rungs[i+1]
Finishes == <>(phase = "done")
Emit == phase = "done" /\ model = 1 => PrintT("CASE " \o ToJson([rungs |-> rungs, budget |-> budget]))
=============================================================================
