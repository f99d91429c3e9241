---------------------------- MODULE KalmanTrace ----------------------------
(* Real filter and smoother output, judged by SSM.Posterior.               *)
EXTENDS Kalman, TraceKit, TLC

VARIABLES l, st, bad
e == Trace[l]
M == e.m
NT == Len(e.ts)
D == Len(M.mean)
Scale(v) == RAdd("1", VMaxR([i \in 1..Len(v) |-> RAbs(v[i])]))
VNear(a, b) == LET tol == RMul(e.tol, Scale(b)) IN Len(a) = Len(b) /\ \A i \in 1..Len(b) : ~RIsNaN(a[i]) /\ RLe(RAbs(RSub(a[i], b[i])), tol)
MNear(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : VNear(a[i], b[i])
OuterP(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> RMul(a[i], b[j])]]

FilterClauses ==
    LET post == Forced([u \in 1..NT |-> LET p == Posterior(M, SubSeq(e.ts, 1, u), SubSeq(e.ys, 1, u), u) IN Belief(BlockOf(p.mean, u, D), MBlock(p.cov, u, u, D))])
    IN << <<"one mean and covariance per time", Len(e.mus) = NT /\ Len(e.covs) = NT>>,
          <<"filter means are the conditional means given the observations so far", \A u \in 1..NT : VNear(e.mus[u], post[u].mean)>>,
          <<"filter covariances are the conditional covariances given the observations so far", \A u \in 1..NT : MNear(e.covs[u], post[u].cov)>>,
          <<"filter covariances are symmetric and positive", \A u \in 1..NT : PositiveDefinite(e.covs[u]) /\ Symmetric(e.covs[u], RMul(e.tol, Scale(e.covs[u][1])))>> >>
SmootherClauses ==
    LET p == Forced(Posterior(M, e.ts, e.ys, NT))
        mean(k) == BlockOf(p.mean, k, D)
        Second(k) == MAdd(MBlock(p.cov, k, k + 1, D), OuterP(mean(k), mean(k + 1)))
    IN << <<"one mean and covariance per time and one lag-one moment per step", Len(e.mus) = NT /\ Len(e.covs) = NT /\ (~e.lagged \/ Len(e.lags) = NT - 1)>>,
          <<"smoothed means are the conditional means given all observations", \A k \in 1..NT : VNear(e.mus[k], mean(k))>>,
          <<"smoothed covariances are the conditional covariances given all observations", \A k \in 1..NT : MNear(e.covs[k], MBlock(p.cov, k, k, D))>>,
          <<"lag-one moments are E[x_t x_{t+1}'] given all observations", ~e.lagged \/ \A k \in 1..(NT-1) : MNear(e.lags[k], Second(k))>>,
          <<"filter and smoother agree at the last time", VNear(e.mus[NT], e.fmu) /\ MNear(e.covs[NT], e.fcov)>>,
          <<"smoothed covariances are symmetric and positive", \A k \in 1..NT : PositiveDefinite(e.covs[k]) /\ Symmetric(e.covs[k], RMul(e.tol, Scale(e.covs[k][1])))>> >>
Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Filter" -> FilterClauses
             [] e.ev = "Smoother" -> SmootherClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Keep(bad, Failing(l, e, Clauses)) /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
