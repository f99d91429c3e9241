------------------------------ MODULE SSMTrace ------------------------------
(* Densities, gradients, samples and simulations of real state-space       *)
(* models, judged by SSM.                                                  *)
EXTENDS SSM, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
M == e.m
\* some models leave out normalising constants that do not depend on the positions
Loose == M.kind \in {"benchmark", "volatility"}
Near(a, b, scale) == ~RIsNaN(a) /\ RLe(RAbs(RSub(a, b)), RMul(e.tol, RAdd("1", scale)))
Biggest(v) == VMaxR([i \in 1..Len(v) |-> RAbs(v[i])])
AgreeUpToConstant(as, bs) == LET b == Forced(bs) s == Biggest(b) IN
    Len(as) = Len(b) /\ IF Loose THEN \A i \in 1..Len(b) : Near(RSub(as[i], as[1]), RSub(b[i], b[1]), s) ELSE \A i \in 1..Len(b) : Near(as[i], b[i], s)

H == "0.00001"
Shift(x, i, h) == [x EXCEPT ![i] = RAdd(@, h)]
NumGrad(F(_), x) == Forced([i \in 1..Len(x) |-> RDiv(RSub(F(Shift(x, i, H)), F(Shift(x, i, RNeg(H)))), RMul("2", H))])
GradNear(g, F(_), x) == LET n == NumGrad(F, x) s == Biggest(n) IN Len(g) = Len(n) /\ \A i \in 1..Len(n) : Near(g[i], n[i], RMul("3", s))

DensityClauses ==
    LET n == Len(e.xs)
        I(x) == InitPot(M, x, e.s)
        O(x, y) == ObsPot(M, x, y, e.t)
    IN << <<"initial potentials are those of the model", AgreeUpToConstant(e.init, [k \in 1..n |-> I(e.xs[k])])>>,
          <<"transition potentials are those of the model", AgreeUpToConstant(e.trans, [k \in 1..n |-> TransPot(M, e.xs[k], e.s, e.zs[k], e.t)])>>,
          <<"observation potentials are those of the model", AgreeUpToConstant(e.obs, [k \in 1..n |-> O(e.xs[k], e.ys[k])])>> >>
    \o (IF ~e.graded THEN << >> ELSE <<
          <<"initial gradients are those of the potential", \A k \in 1..n : GradNear(e.ginit[k], I, e.xs[k])>>,
          <<"transition gradients are those of the potential",
             \A k \in 1..n : LET A(x) == TransPot(M, x, e.s, e.zs[k], e.t)  B(z) == TransPot(M, e.xs[k], e.s, z, e.t) IN GradNear(e.gtrans1[k], A, e.xs[k]) /\ GradNear(e.gtrans2[k], B, e.zs[k])>>,
          <<"observation gradients are those of the potential", \A k \in 1..n : LET F(x) == O(x, e.ys[k]) IN GradNear(e.gobs[k], F, e.xs[k])>>,
          <<"potentials returned with gradients are the potentials", VClose(e.pinit, e.init, "1e-4", "1e-4") /\ VClose(e.ptrans, e.trans, "1e-4", "1e-4") /\ VClose(e.pobs, e.obs, "1e-4", "1e-4")>>,
          <<"gradients returned with potentials are the gradients", MClose(e.hinit, e.ginit, "1e-4", "1e-4") /\ MClose(e.htrans1, e.gtrans1, "1e-3", "1e-3") /\ MClose(e.htrans2, e.gtrans2, "1e-3", "1e-3") /\ MClose(e.hobs, e.gobs, "1e-4", "1e-4")>> >>)

\* trajectories xs[k][t] with observations: potentials and (maybe) gradients
JointClauses ==
    LET T == Len(e.ts)  n == Len(e.xs)
        J(xs, ys) == JointPot(M, xs, ys, e.ts)
    IN << <<"the joint potential is the sum of the initial, transition and observation terms", AgreeUpToConstant(e.pot, [k \in 1..n |-> J(e.xs[k], e.ys[k])])>> >>
    \o (IF ~e.graded THEN << >> ELSE <<
          <<"the joint gradient is that of the joint potential",
            \A k \in 1..n : Len(e.grad[k]) = T /\ \A t \in 1..T : LET F(x) == J([e.xs[k] EXCEPT ![t] = x], e.ys[k]) IN GradNear(e.grad[k][t], F, e.xs[k][t])>> >>)

Residuals(vs, mu) == [k \in 1..Len(vs) |-> VSub(vs[k], mu)]
SampleClauses ==
    LET mu == Forced(CASE e.what = "initial" -> InitMean(M, e.t) [] e.what = "transition" -> TransMean(M, e.x, e.s, e.t) [] OTHER -> ObsMean(M, e.x, e.t))
        cov == Forced(CASE e.what = "initial" -> InitCov(M, e.t) [] e.what = "transition" -> TransCov(M, e.s, e.t) [] OTHER -> ObsCov(M, e.x, e.t))
    IN << <<"samples have the distribution of the potential", GaussianResiduals(Residuals(e.draws, mu), cov)>> >>

\* simulated data sets xs[t][k], ys[t][k]
Sd(cov, i) == RSqrt(cov[i][i])
SimulateClauses ==
    LET T == Len(e.ts)  n == Len(e.xs[1])
        first == Forced(InitMean(M, e.ts[1]))
        rx == Forced([t \in 1..T |-> Forced([k \in 1..n |-> VSub(e.xs[t][k], IF t = 1 THEN first ELSE TransMean(M, e.xs[t-1][k], e.ts[t-1], e.ts[t]))])])
        cx(t) == IF t = 1 THEN InitCov(M, e.ts[1]) ELSE TransCov(M, e.ts[t-1], e.ts[t])
        ry == Forced([t \in 1..T |-> Forced([k \in 1..n |-> LET v == VSub(e.ys[t][k], ObsMean(M, e.xs[t][k], e.ts[t])) IN
                    IF M.kind = "volatility" THEN [i \in 1..Len(v) |-> RMul(v[i], RExp(RDiv(e.xs[t][k][i], "-2")))] ELSE v])])
        cy(t) == ObsCov(M, [i \in 1..Len(e.xs[1][1]) |-> "0"], e.ts[t])
        colx == Forced([t \in 1..T |-> MTr(rx[t])])
        coly == Forced([t \in 1..T |-> MTr(ry[t])])
        Unrelated(a, ca, b, cb) == \A i \in 1..Len(ca), j \in 1..Len(cb) : Within(VDot(a[i], b[j]), RMul(n, RMul(ca[i][i], cb[j][j])), RMul("6", RMul(Sd(ca, i), Sd(cb, j))))
    IN << <<"the requested times are simulated", e.shape>>,
          <<"simulated states follow the model", \A t \in 1..T : GaussianResiduals(rx[t], cx(t))>>,
          <<"simulated observations follow the model", \A t \in 1..T : GaussianResiduals(ry[t], cy(t))>>,
          <<"noises are independent", \A t \in 1..T, s \in 1..T : (s < t => Unrelated(colx[t], cx(t), colx[s], cx(s)) /\ Unrelated(coly[t], cy(t), coly[s], cy(s))) /\ Unrelated(colx[t], cx(t), coly[s], cy(s))>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Density" -> DensityClauses
             [] e.ev = "Joint" -> JointClauses
             [] e.ev = "Sample" -> SampleClauses
             [] e.ev = "Simulate" -> SimulateClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Keep(bad, Failing(l, e, Clauses)) /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
