----------------------------- MODULE MCWeights -----------------------------
(* Small ensembles with integer weights, exact arithmetic.  Each particle  *)
(* carries the identity of its origin.  ESS = (sum w)^2 / sum w^2; the     *)
(* evidence is kept as the fraction zn/zd.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Factors, Steps, ThrNum, ThrDen
VARIABLES w, origin, zn, zd, k, phase, lastw, everResampled, killed

Particles == 1..N
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
Tot(f) == Sum(f, N)
SqTot(f) == Sum([i \in Particles |-> f[i] * f[i]], N)
\* Ess(f) <= thr * N   <=>   Tot^2 * ThrDen <= ThrNum * N * SqTot
Low(f) == Tot(f) * Tot(f) * ThrDen <= ThrNum * N * SqTot(f)
Init == /\ w \in [Particles -> Factors] /\ Tot(w) > 0 /\ origin = [i \in Particles |-> i]
        /\ zn = Tot(w) /\ zd = N /\ k = 1 /\ phase = "weighted" /\ lastw = w
        /\ everResampled = FALSE /\ killed = {}
Resample == /\ phase = "weighted" /\ k < Steps /\ Low(w)
            /\ \E a \in [Particles -> Particles] :
                 /\ \A i \in Particles : w[a[i]] > 0
                 /\ origin' = [i \in Particles |-> origin[a[i]]]
            /\ lastw' = w /\ w' = [i \in Particles |-> 1] /\ phase' = "ready" /\ UNCHANGED <<zn, zd, k>>
            /\ everResampled' = TRUE
            /\ killed' = killed \cup { origin[i] : i \in { j \in Particles : \A m \in Particles : origin[m] = origin[j] => w[m] = 0 } }
Keep == /\ phase = "weighted" /\ k < Steps /\ ~Low(w) /\ phase' = "ready" /\ lastw' = w /\ UNCHANGED <<w, origin, zn, zd, k, everResampled, killed>>
Reweight == /\ phase = "ready"
            /\ \E f \in [Particles -> Factors] :
                 LET v == [i \in Particles |-> w[i] * f[i]]
                 IN /\ Tot(v) > 0 /\ w' = v /\ zn' = zn * Tot(v) /\ zd' = zd * Tot(w)
            /\ k' = k + 1 /\ phase' = "weighted" /\ UNCHANGED <<origin, lastw, everResampled, killed>>
Next == Resample \/ Keep \/ Reweight
Spec == Init /\ [][Next]_<<w, origin, zn, zd, k, phase, lastw, everResampled, killed>>

EssBounds == Tot(w) * Tot(w) >= SqTot(w) /\ Tot(w) * Tot(w) <= N * SqTot(w)
Positive == Tot(w) > 0 /\ zn > 0 /\ zd > 0
\* telescoping: between resamplings the evidence is the evidence at the last one times the mean weight since
Telescopes == everResampled = FALSE => zn * N = zd * Tot(w)
Survivors == \A i \in Particles : origin[i] \notin killed
ResetAfterResampling == (phase = "ready" /\ Low(lastw)) => w = [i \in Particles |-> 1]
UntouchedOtherwise == (phase = "ready" /\ ~Low(lastw)) => w = lastw
=============================================================================
