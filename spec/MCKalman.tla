------------------------------ MODULE MCKalman ------------------------------
(* The forward and backward machines against conditioning the joint        *)
(* Gaussian, over small models, times and observations.                    *)
EXTENDS Kalman, FiniteSets, TLC, Json

CONSTANTS TMax, Models, Values, GapSets
VARIABLES model, ys, gaps, t, b, hist, back

ObsValues == << -2, 0, 3 >>

Mods == << [kind |-> "linear", mean |-> <<"0.5">>, cov |-> <<<<"2">>>>, f |-> <<<<"0.9">>>>, q |-> <<<<"0.5">>>>, h |-> <<<<"1.5">>>>, r |-> <<<<"0.25">>>>],
           [kind |-> "linear", mean |-> <<"0.5", "-1">>, cov |-> <<<<"2", "0.5">>, <<"0.5", "1">>>>, f |-> <<<<"0.9", "0.3">>, <<"-0.2", "0.6">>>>, q |-> <<<<"0.5", "0.2">>, <<"0.2", "0.7">>>>, h |-> <<<<"1", "-0.5">>>>, r |-> <<<<"0.25">>>>],
           [kind |-> "drifting", mean |-> <<"0.5", "-1">>, cov |-> <<<<"2", "0.5">>, <<"0.5", "1">>>>, f |-> <<<<"0.9", "0.3">>, <<"-0.2", "0.6">>>>, q |-> <<<<"0.5", "0.2">>, <<"0.2", "0.7">>>>,
            h |-> <<<<"1", "-0.5">>, <<"0.3", "0.8">>, <<"0", "1">>>>, r |-> <<<<"0.5", "0.1", "0">>, <<"0.1", "0.4", "-0.1">>, <<"0", "-0.1", "0.3">>>>] >>
Times == << <<"0", "1", "2", "3", "4">>, <<"0.5", "0.8", "2.1", "2.3", "3.9">> >>
m == Mods[model]
tm(k) == Times[gaps][k]
Obs(k) == [i \in 1..Len(m.h) |-> RMul(ToString(Values[ys[k]]), ToString(i))]
AllObs(u) == [k \in 1..u |-> Obs(k)]
AllTimes(u) == SubSeq(Times[gaps], 1, u)
d == Len(m.mean)

Init == /\ model \in Models /\ ys \in [1..TMax -> 1..Len(Values)] /\ gaps \in GapSets
        /\ t = 1 /\ b = Start(m, Obs(1), tm(1)) /\ hist = << b >> /\ back = << >>
Forward == t < TMax /\ back = << >> /\ LET u == Update(m, Predict(m, b, tm(t), tm(t+1)), Obs(t+1), tm(t+1)) IN b' = u /\ hist' = Append(hist, u)
           /\ t' = t + 1 /\ UNCHANGED <<model, ys, gaps, back>>
Backward == t = TMax /\ Len(back) < TMax - 1
            /\ LET k == TMax - 1 - Len(back)
                   next == IF back = << >> THEN hist[TMax] ELSE Head(back)
               IN  back' = << Retrodict(m, hist[k], next, tm(k), tm(k+1)) >> \o back
            /\ UNCHANGED <<model, ys, gaps, t, b, hist>>
Spec == Init /\ [][Forward \/ Backward]_<<model, ys, gaps, t, b, hist, back>>

Near(a, c) == VClose(a.mean, c.mean, "1e-8", "1e-9") /\ MClose(a.cov, c.cov, "1e-8", "1e-9")
FilterExact == back = << >> => LET p == Posterior(m, AllTimes(t), AllObs(t), t) IN Near(b, Belief(BlockOf(p.mean, t, d), MBlock(p.cov, t, t, d)))
SmootherExact == back # << >> =>
    LET p == Posterior(m, AllTimes(TMax), AllObs(TMax), TMax)  k == TMax - Len(back)
    IN  /\ Near(Head(back), Belief(BlockOf(p.mean, k, d), MBlock(p.cov, k, k, d)))
        /\ MClose(Head(back).cross, MBlock(p.cov, k, k + 1, d), "1e-8", "1e-9")
SmootherCertain == back # << >> => NoLessCertain(Head(back).cov, hist[TMax - Len(back)].cov, "1e-10")
WellFormed == PositiveDefinite(b.cov) /\ Symmetric(b.cov, "1e-10") /\ (back # << >> => PositiveDefinite(Head(back).cov) /\ Symmetric(Head(back).cov, "1e-10"))
Emit == (t = 1) => PrintT("CASE " \o ToJson([model |-> model, ys |-> AllObs(TMax), gaps |-> gaps]))
=============================================================================
