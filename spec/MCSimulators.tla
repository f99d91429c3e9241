---------------------------- MODULE MCSimulators ----------------------------
(* All trajectories of the jump processes from small populations, and the  *)
(* laws by uniformisation: they are probability laws, they agree with the  *)
(* rates over short times and they compose.  Prints the configurations     *)
(* that are replayed on the real simulators.                               *)
EXTENDS Simulators, Json

CONSTANT Events
VARIABLES kind, theta, start, x, k, removed

Thetas == [1..3 -> {"0", "0.5", "1.5"}]
Starts == { <<2, 1>>, <<1, 3>>, <<3, 0>>, <<0, 2>>, <<3, 2>> }
Init == /\ kind \in {"sir", "predprey"} /\ theta \in Thetas /\ (kind = "sir" => theta[3] = "0")
        /\ start \in Starts /\ x = start /\ k = 0 /\ removed = 0
N == start[1] + start[2]
Rs == Reactions(kind, theta, x, N)
Next == /\ k < Events /\ \E i \in Possible(Rs) : x' = Rs[i].to /\ k' = k + 1 /\ removed' = removed + (IF kind = "sir" /\ i = 2 THEN 1 ELSE 0)
        /\ UNCHANGED <<kind, theta, start>>
Spec == Init /\ [][Next]_<<kind, theta, start, x, k, removed>>

Populations == x[1] >= 0 /\ x[2] >= 0
Conserved == kind = "sir" => x[1] + x[2] + removed = N
OneWay == [][kind = "sir" => /\ x'[1] <= x[1] /\ x'[1] + x'[2] <= x[1] + x[2]
                             /\ x' \in {<<x[1] - 1, x[2] + 1>>, <<x[1], x[2] - 1>>}]_<<kind, theta, start, x, k, removed>>
NoBirths == (kind = "predprey" /\ theta[1] = "0") => x[1] + x[2] <= N
ExtinctIsFinal == (x = <<0, 0>>) => Ended(Rs)
Recognised == \A i \in Possible(Rs) : Which(Rs, Rs[i].to) = i

Finite == kind = "sir" \/ theta[1] = "0"
Atoms(l) == 1..Len(l.states)
At(l, s) == IF \E i \in Atoms(l) : l.states[i] = s THEN l.mass[CHOOSE i \in Atoms(l) : l.states[i] = s] ELSE "0"
Laws == (k = 0 /\ Finite /\ N <= 4) =>
    LET l1 == Forced(Law(kind, theta, N, x, "0.7", 10))
        l2 == Forced(Law(kind, theta, N, x, "1.1", 10))
        tiny == Forced(Law(kind, theta, N, x, "0.0001", 10))
    IN  /\ RClose(VSum(l1.mass), "1", "1e-9", "0")
        /\ \A i \in Atoms(l1) : RLe("0", l1.mass[i])
        \* rates
        /\ \A i \in Possible(Rs) : RClose(RDiv(At(tiny, Rs[i].to), "0.0001"), Rs[i].rate, "2e-3", "1e-3")
        \* 0.7 and then 0.4 is 1.1
        /\ LET steps == Forced([i \in Atoms(l1) |-> Law(kind, theta, N, l1.states[i], "0.4", 10)])
           IN  \A j \in Atoms(l2) : RClose(VSum([i \in Atoms(l1) |-> RMul(l1.mass[i], At(steps[i], l2.states[j]))]), l2.mass[j], "1e-9", "0")
\* predators alone die independently
Binomial == (k = 0 /\ kind = "predprey" /\ theta = <<"0", "0", "1.5">> /\ x[1] = 0) =>
    LET l == Forced(Law(kind, theta, N, x, "0.3", 10)) p == RExp("-0.45")
    IN  /\ RClose(At(l, <<0, 2>>), RSq(p), "1e-9", "0")
        /\ RClose(At(l, <<0, 1>>), RMul("2", RMul(p, RSub("1", p))), "1e-9", "0")
Emit == k = 0 => PrintT("CASE " \o ToJson([kind |-> kind, theta |-> theta, start |-> start]))
=============================================================================
