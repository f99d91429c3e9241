----------------------------- MODULE Simulators -----------------------------
(***************************************************************************)
(* The stochastic simulators shipped with mocat.                           *)
(*   Jump processes ("sir": susceptible, infected; "predprey": prey,       *)
(*   predators): from state x the reaction r happens at rate Rate(r), the  *)
(*   waiting time is exponential with the total rate, and the reaction is  *)
(*   chosen with probability proportional to its rate.                     *)
(*   Recursion ("ricker"): n' = r n exp(-n + sd e), observations Poisson   *)
(*   with mean phi n at the observation indices.                           *)
(*   Quantile functions ("gk"): A + B (1 + c tanh(g z / 2)) z (1 + z^2)^k  *)
(*   of a standard normal z.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Real

---------------------------------------------------------------------------
(* Jump processes; x is a pair of integers, theta a sequence of reals, n the population size *)
Reactions(kind, theta, x, n) ==
    IF kind = "sir"
    THEN << [rate |-> RMul(RDiv(theta[1], n), RMul(x[1], x[2])), to |-> <<x[1] - 1, x[2] + 1>>],
            [rate |-> RMul(theta[2], x[2]), to |-> <<x[1], x[2] - 1>>] >>
    ELSE << [rate |-> RMul(theta[1], x[1]), to |-> <<x[1] + 1, x[2]>>],
            [rate |-> RMul(theta[2], RMul(x[1], x[2])), to |-> <<x[1] - 1, x[2] + 1>>],
            [rate |-> RMul(theta[3], x[2]), to |-> <<x[1], x[2] - 1>>] >>
Positive(q) == RLt("0", q)
Possible(rs) == { i \in 1..Len(rs) : Positive(rs[i].rate) }
TotalRate(rs) == VSum([i \in 1..Len(rs) |-> rs[i].rate])
Ended(rs) == Possible(rs) = {}
\* which reaction leads from x to y (0: none does)
Which(rs, y) == IF \E i \in Possible(rs) : rs[i].to = y THEN CHOOSE i \in Possible(rs) : rs[i].to = y ELSE 0

(* The distribution at time t of the process started in x, by uniformisation, over the states reached *)
(* within k events; states reached later are left out, so the masses are exact for the states kept.   *)
RECURSIVE Reached(_, _, _, _, _)
Reached(kind, theta, n, xs, k) ==
    IF k = 0 THEN xs
    ELSE Reached(kind, theta, n, xs \cup UNION { { rs[i].to : i \in Possible(rs) } : rs \in { Reactions(kind, theta, x, n) : x \in xs } }, k - 1)
\* terms of the uniformised chain: (q t)^j / j! e^(-q t), j = 0..m
RECURSIVE PoissonTerms(_, _, _)
PoissonTerms(a, m, acc) == IF Len(acc) > m THEN acc ELSE PoissonTerms(a, m, Append(acc, RDiv(RMul(acc[Len(acc)], a), Len(acc))))
PoissonMass(a, m) == PoissonTerms(a, m, << RExp(RNeg(a)) >>)

RECURSIVE Uniformised(_, _, _, _, _)
\* v: distribution after j steps; returns sum of pois[j+1] v_j
Uniformised(p, v, pois, j, acc) ==
    IF j > Len(pois) THEN acc
    ELSE LET acc2 == Forced([i \in 1..Len(v) |-> RAdd(acc[i], RMul(pois[j], v[i]))])
             v2 == Forced([i \in 1..Len(v) |-> VDot(p[i], v)])
         IN  Uniformised(p, v2, pois, j + 1, acc2)
\* a record: states (a sequence) and mass (their probabilities at time t)
Law(kind, theta, n, x, t, k) ==
    LET set == Reached(kind, theta, n, {x}, k)
        states == Forced(SetToSeq(set))
        m == Len(states)
        rs == Forced([i \in 1..m |-> Reactions(kind, theta, states[i], n)])
        q == RAdd("0.001", VMaxR([i \in 1..m |-> TotalRate(rs[i])]))
        \* p[i][j]: probability of a step from j to i
        p == Forced([i \in 1..m |-> [j \in 1..m |->
               LET gain == VSum([r \in 1..Len(rs[j]) |-> IF rs[j][r].to = states[i] THEN RDiv(rs[j][r].rate, q) ELSE "0"])
               IN  IF i = j THEN RAdd(gain, RSub("1", RDiv(TotalRate(rs[j]), q))) ELSE gain]])
        a == RMul(q, t)
        terms == RFloor(RAdd(a, RAdd("20", RMul("8", RSqrt(a)))))
        start == [i \in 1..m |-> IF states[i] = x THEN "1" ELSE "0"]
    IN  [states |-> states, mass |-> Uniformised(p, start, Forced(PoissonMass(a, terms)), 1, [i \in 1..m |-> "0"])]
MassOf(law, ok(_)) == VSum([i \in 1..Len(law.states) |-> IF ok(law.states[i]) THEN law.mass[i] ELSE "0"])
---------------------------------------------------------------------------
(* Ricker *)
RickerMean(r, nn) == RMul(r, RMul(nn, RExp(RNeg(nn))))           \* next population without noise
RickerNoise(r, nn, next) == RAdd(RLog(RDiv(next, RMul(r, nn))), nn)   \* sd times the noise
---------------------------------------------------------------------------
(* Quantile functions; p has fields a, b, c, g, k *)
Skew(g, z) == LET m == RExp(RNeg(RMul(g, z))) IN RDiv(RSub("1", m), RAdd("1", m))
GK(p, z) == RAdd(p.a, RMul(RMul(p.b, RAdd("1", RMul(p.c, Skew(p.g, z)))), RMul(z, RPow(RAdd("1", RSq(z)), p.k))))
\* z such that GK(p, z) = y (GK is increasing for b, k > 0 and c <= 0.8)
RECURSIVE GKBisect(_, _, _, _, _)
GKBisect(p, y, lo, hi, n) ==
    LET mid == Forced(RDiv(RAdd(lo, hi), "2"))
    IN  IF n = 0 THEN mid ELSE IF RLt(GK(p, mid), y) THEN GKBisect(p, y, mid, hi, n - 1) ELSE GKBisect(p, y, lo, mid, n - 1)
GKInverse(p, y) == GKBisect(p, y, "-6", "6", 40)
---------------------------------------------------------------------------
(* Priors: the exponential ("rates"), box ("min", "max") and Gaussian ones, and changes of variable *)
ExpPrior(rates, x) == VDot(rates, x)
LogExpPrior(rates, x) == RSub(VDot(rates, VExp(x)), VSum(x))
InBox(lo, hi, x) == \A i \in 1..Len(x) : RLt(lo[i], x[i]) /\ RLt(x[i], hi[i])
BoxPoint(lo, hi, x) == [i \in 1..Len(x) |-> RAdd(lo[i], RMul(RPhi(x[i]), RSub(hi[i], lo[i])))]
=============================================================================
