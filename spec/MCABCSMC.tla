----------------------------- MODULE MCABCSMC -----------------------------
(* Three particles with distances on a grid, prescribed or adaptive        *)
(* thresholds.  Prints the prescribed ones with their resampling fraction. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Grid, MaxLen
VARIABLES cfg, d, origin, alive, thr, it, phase, low

Particles == 1..N
\* resampling fraction cfg.res / N
Schedules == { s \in UNION { [1..k -> 0..Grid] : k \in 1..MaxLen } : \A i \in 1..Len(s) - 1 : s[i] >= s[i+1] }
Configs == { [schedule |-> s, res |-> r] : s \in Schedules \cup {<<>>}, r \in 0..N + 1 }
MaxIter == IF cfg.schedule = <<>> THEN MaxLen ELSE Len(cfg.schedule)
Adaptive == cfg.schedule = <<>>
ThrAt(i) == cfg.schedule[IF i > Len(cfg.schedule) THEN Len(cfg.schedule) ELSE i]
Thresholds(i) == IF Adaptive THEN { d[k] : k \in Particles } ELSE { ThrAt(i) }
Inside(t) == { k \in Particles : d[k] <= t }
Init == /\ cfg \in Configs /\ d \in [Particles -> 0..Grid] /\ origin = [k \in Particles |-> k]
        /\ it = 0 /\ phase = "start" /\ alive = Particles /\ thr = Grid /\ low = FALSE
Start == phase = "start" /\ \E t \in Thresholds(1) : thr' = t /\ alive' = Inside(t) /\ phase' = "weighted" /\ UNCHANGED <<cfg, d, origin, it, low>>
Due == Cardinality(alive) < cfg.res
Renew == /\ phase = "weighted" /\ it < MaxIter /\ Due /\ alive # {}
         /\ \E a \in [Particles -> alive] : d' = [k \in Particles |-> d[a[k]]] /\ origin' = [k \in Particles |-> origin[a[k]]]
         /\ alive' = Particles /\ phase' = "ready" /\ it' = it + 1 /\ UNCHANGED <<cfg, thr, low>>
Keep == /\ phase = "weighted" /\ it < MaxIter /\ (~Due \/ alive = {}) /\ phase' = "ready" /\ it' = it + 1 /\ UNCHANGED <<cfg, d, origin, alive, thr, low>>
Move == /\ phase = "ready"
        /\ \E e \in [Particles -> 0..Grid] :
             /\ \A k \in Particles : e[k] = d[k] \/ (k \in alive /\ e[k] < thr)
             /\ d' = e /\ low' = (e = d)
        /\ phase' = "moved" /\ UNCHANGED <<cfg, origin, alive, thr, it>>
Impose == phase = "moved" /\ \E t \in Thresholds(it + 1) : thr' = t /\ alive' = Inside(t) /\ phase' = "weighted" /\ UNCHANGED <<cfg, d, origin, it, low>>
Stop == phase = "weighted" /\ (it >= MaxIter \/ low) /\ phase' = "done" /\ UNCHANGED <<cfg, d, origin, alive, thr, it, low>>
Next == Start \/ Renew \/ Keep \/ Move \/ Impose \/ Stop
Spec == Init /\ [][Next]_<<cfg, d, origin, alive, thr, it, phase, low>>

LivingInside == phase \in {"weighted", "ready", "moved", "done"} => \A k \in alive : d[k] <= thr
DeadOutside == phase \in {"weighted", "done"} => \A k \in Particles \ alive : d[k] > thr
ThresholdsFall == phase \in {"moved", "ready"} /\ ~Adaptive => thr = ThrAt(it)
NeverAllDeadWhenAdaptive == Adaptive => alive # {}
Emit == phase = "start" => PrintT("CASE " \o ToJson([schedule |-> cfg.schedule, res |-> cfg.res]))
=============================================================================
