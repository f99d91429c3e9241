----------------------------- MODULE MCLadder -----------------------------
(* Ladders over a small grid of temperatures: prescribed ones (with and    *)
(* without the leading prior) and adaptive ones (any larger rung may be    *)
(* next), with an iteration budget.  Prints the prescribed ones.           *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Grid, Budget
VARIABLES cfg, t, it, rungs, phase, scenarioT

Increasing(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i+1]
Schedules == { s \in UNION { [1..k -> 0..Grid] : k \in 1..Grid + 1 } : Increasing(s) /\ s[Len(s)] > 0 }
NoSchedule == <<>>
Strip(s) == IF s[1] = 0 THEN Tail(s) ELSE s
Max == IF cfg.schedule = NoSchedule THEN cfg.max ELSE cfg.schedule[Len(cfg.schedule)]
MaxIter == IF cfg.schedule = NoSchedule THEN cfg.budget ELSE Len(Strip(cfg.schedule))

Configs == { [schedule |-> s, max |-> Grid, budget |-> Budget] : s \in Schedules }
           \cup { [schedule |-> NoSchedule, max |-> m, budget |-> b] : m \in 1..Grid, b \in 1..Budget }
NextRungs == IF cfg.schedule = NoSchedule THEN { u \in 1..Grid : u > t /\ u <= cfg.max }
             ELSE { Strip(cfg.schedule)[it + 1] }
Init == cfg \in Configs /\ t = 0 /\ it = 0 /\ rungs = <<>> /\ phase = "new" /\ scenarioT = 0
Start == phase = "new" /\ \E u \in NextRungs : t' = u /\ rungs' = <<u>> /\ it' = 0 /\ phase' = "run" /\ UNCHANGED <<cfg, scenarioT>>
Done == t >= Max \/ it >= MaxIter
Climb == phase = "run" /\ ~Done /\ it' = it + 1
         /\ \E u \in (IF cfg.schedule = NoSchedule THEN NextRungs ELSE { Strip(cfg.schedule)[it + 2] }) :
                t' = u /\ rungs' = Append(rungs, u)
         /\ UNCHANGED <<cfg, phase, scenarioT>>
Finish == phase = "run" /\ Done /\ phase' = "done" /\ scenarioT' = t /\ UNCHANGED <<cfg, t, it, rungs>>
Next == Start \/ Climb \/ Finish
Spec == Init /\ [][Next]_<<cfg, t, it, rungs, phase, scenarioT>> /\ WF_<<cfg, t, it, rungs, phase, scenarioT>>(Next)

Climbing == Increasing(rungs)
Capped == t <= Max
FollowsSchedule == cfg.schedule # NoSchedule => rungs = SubSeq(Strip(cfg.schedule), 1, Len(rungs))
CompleteAtEnd == phase = "done" => (t = Max \/ it = MaxIter) /\ scenarioT = t /\ (cfg.schedule # NoSchedule => rungs = Strip(cfg.schedule))
Finishes == <>(phase = "done")
Emit == phase = "done" => PrintT("CASE " \o ToJson([schedule |-> cfg.schedule, max |-> cfg.max, budget |-> cfg.budget]))
=============================================================================
