------------------------------- MODULE Kalman -------------------------------
(***************************************************************************)
(* Exact inference in linear models, as a machine.  State: the mean and    *)
(* covariance of the current hidden state given the observations so far.   *)
(*   Predict(s, t)  through the transition from time s to t                *)
(*   Update(y, t)   by an observation at t                                 *)
(* and backwards, Retrodict(given what is known of the next state).        *)
(* SSM.Posterior says what the result must be: the conditional moments of  *)
(* the joint Gaussian of all states.                                       *)
(***************************************************************************)
EXTENDS SSM

Belief(a, c) == [mean |-> a, cov |-> c]
Predict(m, b, s, t) == LET f == FlowMatrix(m, s, t) IN Belief(MVec(f, b.mean), MAdd(MMul(MMul(f, b.cov), MTr(f)), TransCov(m, s, t)))
Update(m, b, y, t) == LET h == ObsMatrix(m, t)  r == ObsCov(m, << >>, t) IN Belief(CondMean(b.mean, b.cov, h, r, y), CondCov(b.cov, h, r))
\* b: given observations to s; next: at t given all observations
Retrodict(m, b, next, s, t) ==
    LET p == Predict(m, b, s, t)
        g == MMul(MMul(b.cov, MTr(FlowMatrix(m, s, t))), MInv(p.cov))
    IN  [mean |-> VAdd(b.mean, MVec(g, VSub(next.mean, p.mean))),
         cov |-> MAdd(b.cov, MMul(MMul(g, MSub(next.cov, p.cov)), MTr(g))),
         cross |-> MMul(g, next.cov)]                \* cov(x_s, x_t)
Start(m, y, t) == Update(m, Belief(InitMean(m, t), InitCov(m, t)), y, t)

RECURSIVE FirstMinors(_, _)
FirstMinors(a, k) == k = 0 \/ (RLt("0", MDet([i \in 1..k |-> SubSeq(a[i], 1, k)])) /\ FirstMinors(a, k - 1))
PositiveDefinite(a) == FirstMinors(a, Len(a))
Symmetric(a, tol) == \A i \in 1..Len(a), j \in 1..Len(a) : i < j => RLe(RAbs(RSub(a[i][j], a[j][i])), tol)
\* what is known when at least as much is observed is never less certain
NoLessCertain(a, b, tol) == \A i \in 1..Len(a) : RLe(a[i][i], RAdd(b[i][i], tol))
=============================================================================
