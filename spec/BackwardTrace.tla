--------------------------- MODULE BackwardTrace ---------------------------
(* Real backward simulations, judged by Backward.                          *)
(* Backward: filter particles x[t][i], weights lw[t][i], times; for the    *)
(* drawn trajectories the number of foreign states, and how often index v  *)
(* was drawn at the last time (last[v]), at t before z (pairs[t][z][v]),   *)
(* and at t before z before u (triples[t][u][z][v]).  Particles of equal   *)
(* value share an index (cls).                                             *)
(* Smooth: trajectories returned by filtering and simulating together.     *)
EXTENDS Backward, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
M == e.m
NT == Len(e.ts)
NP == Len(e.x[1])
Part(t) == [x |-> e.x[t], lw |-> e.lw[t]]
\* probabilities of classes of equal particles
Merge(p, cls) == [v \in 1..Len(p) |-> VSum([i \in 1..Len(p) |-> IF cls[i] = v THEN p[i] ELSE "0"])]
LastLaw == Merge(NormalisedWeights(e.lw[NT]), e.cls[NT])
Laws == Forced([t \in 1..(NT-1) |-> [z \in 1..NP |->
            IF MinusInf(e.lw[t+1][z]) \/ e.cls[t+1][z] # z THEN << >>
            ELSE Merge(BackwardLaw(M, Part(t), e.ts[t], e.x[t+1][z], e.ts[t+1]), e.cls[t])]])
RECURSIVE Total(_)
Total(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + Total(Tail(s))
AsDrawn(counts, law) == LET n == Total(counts) IN n = 0 \/ (Len(law) = Len(counts) /\ \A v \in 1..Len(counts) : Frequency(counts[v], n, RMin("1", law[v])))
Impossible(counts, lw, cls) == \A v \in 1..Len(counts) : counts[v] > 0 => \E i \in 1..Len(lw) : cls[i] = v /\ ~MinusInf(lw[i])
RangeEvals(k) == IF e.limit = 0 THEN REq(k, e.n * NP) ELSE RLe(e.n, k) /\ RLe(k, e.n * e.limit + NP * e.n)
\* with a single proposal per draw the number of rejected ones is known from the evaluations
Rejected(t) == RDiv(RSub(e.evals[t], e.n), NP)
OneProposal(laws) ==
    \A t \in 1..(NT-1) :
        LET used == [z \in 1..NP |-> Total(e.pairs[t][z])]
            p == Forced([z \in 1..NP |-> IF used[z] = 0 THEN "0" ELSE Rejection(M, Part(t), e.ts[t], e.x[t+1][z], e.ts[t+1], e.bound)])
            mean == VSum([z \in 1..NP |-> RMul(used[z], p[z])])
            var == VSum([z \in 1..NP |-> RMul(used[z], RMul(p[z], RSub("1", p[z])))])
        IN  RClose(RFloor(RAdd(Rejected(t), "0.5")), Rejected(t), "0", "1e-3") /\ Within(RSub(Rejected(t), mean), var, "6")
BackwardClauses ==
    LET laws == Laws IN
    << <<"the requested number of trajectories over all times is returned with the times and observations of the filter", e.shape>>,
       <<"every state is one of the filter's particles at that time", e.foreign = 0>>,
       <<"states of zero weight are not drawn", \A t \in 1..NT : Impossible(IF t = NT THEN e.last ELSE [v \in 1..NP |-> Total([z \in 1..NP |-> e.pairs[t][z][v]])], e.lw[t], e.cls[t])>>,
       <<"last states are drawn in proportion to their filter weight", AsDrawn(e.last, LastLaw)>>,
       <<"states are drawn in proportion to filter weight times transition density to the next state",
         \A t \in 1..(NT-1), z \in 1..NP : AsDrawn(e.pairs[t][z], laws[t][z])>>,
       <<"given the next state, a state does not depend on later ones",
         \A t \in 1..(NT-2), u \in 1..NP, z \in 1..NP : Total(e.triples[t][u][z]) < 40 \/ AsDrawn(e.triples[t][u][z], laws[t][z])>>,
       <<"the number of density evaluations is possible for the work done", Len(e.evals) = NT - 1 /\ \A t \in 1..(NT-1) : RangeEvals(e.evals[t])>> >>
    \o (IF e.limit = 1 /\ e.bound # "none" THEN << <<"proposals are rejected with the stated probability", OneProposal(laws)>> >> ELSE << >>)

(* Exact smoothing of linear models; a tenfold variance is allowed for the *)
(* filter's approximation                                                  *)
SmoothClauses ==
    LET d == Len(M.mean)  n == Len(e.x[1])
        post == Forced(Posterior(M, e.ts, e.ys, NT))
        col(t, i) == [k \in 1..n |-> e.x[t][k][i]]
        mu(t, i) == post.mean[(t-1)*d + i]
        c(t, i, s, j) == post.cov[(t-1)*d + i][(s-1)*d + j]
        dev == Forced([t \in 1..NT |-> [i \in 1..d |-> VShift(RNeg(mu(t, i)), col(t, i))]])
        size == RDiv("10", RMin(n, e.npf))
        Ok(t, i, s, j) == Within(RSub(RDiv(VDot(dev[t][i], dev[s][j]), n), c(t, i, s, j)), RMul(RAdd(RMul(c(t, i, t, i), c(s, j, s, j)), RSq(c(t, i, s, j))), size), "0")
        always == << <<"the requested number of trajectories over all times is returned", e.shape>>,
                     <<"there are no more different states than filter particles", e.distinct <= e.npf>> >>
    IN IF ~e.exact THEN always ELSE always \o <<
          <<"the smoothed means are those of the model", \A t \in 1..NT, i \in 1..d : Within(VMean(dev[t][i]), RMul(c(t, i, t, i), size), "0")>>,
          <<"the smoothed covariances are those of the model", \A t \in 1..NT, i \in 1..d, j \in 1..d : Ok(t, i, t, j)>>,
          <<"the covariances of successive states are those of the model", \A t \in 1..(NT-1), i \in 1..d, j \in 1..d : Ok(t, i, t + 1, j)>> >>

(* A rare particle carrying much of the law: the bound must be raised and  *)
(* everything redrawn once it is seen.  Few draws never see it.            *)
RareClauses ==
    LET law == BackwardLaw(M, [x |-> e.x, lw |-> e.lw], e.s, e.z, e.t)
    IN << <<"draws made before the bound was known are redrawn",
            \A v \in 1..Len(law) : LET dev == RSub(e.counts[v], RMul(e.n, law[v]))
                                       sd == RSqrt(RMul(e.n, RMul(law[v], RSub("1", law[v]))))
                                   IN RLe(RAbs(dev), RAdd(RMul("6", sd), RMul(e.allow, e.n)))>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Backward" -> BackwardClauses
             [] e.ev = "Smooth" -> SmoothClauses
             [] e.ev = "Rare" -> RareClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Keep(bad, Failing(l, e, Clauses)) /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
