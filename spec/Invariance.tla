----------------------------- MODULE Invariance -----------------------------
(***************************************************************************)
(* What a sampler exists for.  If the particles it is started from are     *)
(* exact draws from its target, so are the particles after any number of   *)
(* transitions; and the expected evidence estimate of a tempered ensemble  *)
(* is the evidence, also when multiplied by the weighted mean of any       *)
(* function of the particles.  Targets: a Gaussian prior and likelihood at *)
(* any temperature (exact moments, momenta standard normal and independent *)
(* of the positions), and any one-dimensional potential (probabilities of  *)
(* bins by quadrature).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Real, Scenario, Stats

\* c: [mean, cov, sd, t]: prior N(0, sd^2 I), likelihood potential of N(mean, cov) without constant, temperature t
Prec(c) == MAdd(MDiag([i \in 1..Len(c.mean) |-> RDiv("1", RSq(c.sd))]), MScale(c.t, MInv(c.cov)))
TargetCov(c) == MInv(Prec(c))
TargetMean(c) == MVec(TargetCov(c), VScale(c.t, MVec(MInv(c.cov), c.mean)))
\* position and momentum: momenta independent standard normals
JointMean(c, m) == TargetMean(c) \o [i \in 1..m |-> "0"]
JointCov(c, m) == LET d == Len(c.mean)  s == TargetCov(c)
                  IN  [i \in 1..d+m |-> [j \in 1..d+m |-> IF i <= d /\ j <= d THEN s[i][j] ELSE IF i = j THEN "1" ELSE "0"]]

\* sums s1 of z and s2 of z z' over n independent draws of N(m, s)
GaussianFirst(n, s1, m, s) == \A i \in 1..Len(m) : Within(RSub(s1[i], RMul(n, m[i])), RMul(n, s[i][i]), "0.05")
SecondVar(m, s, i, j) ==
    VSum(<<RMul(s[i][i], s[j][j]), RSq(s[i][j]), RMul(RSq(m[i]), s[j][j]), RMul(RSq(m[j]), s[i][i]),
           RMul("2", RMul(s[i][j], RMul(m[i], m[j])))>>)
GaussianSecond(n, s2, m, s) ==
    \A i, j \in 1..Len(m) : i <= j =>
        Within(RSub(s2[i][j], RMul(n, RAdd(s[i][j], RMul(m[i], m[j])))), RMul(n, SecondVar(m, s, i, j)), "0.5")

\* Evidence of the tempered likelihood: log E_prior exp(-t lik)
LogDet(a) == RLog(MDet(a))
LogEvidence(c) ==
    LET v == MAdd(MScale(RDiv("1", c.t), c.cov), MDiag([i \in 1..Len(c.mean) |-> RSq(c.sd)]))
    IN  RMul("0.5", VSum(<<RNeg(Quad(c.mean, MInv(v), c.mean)), RNeg(LogDet(v)), LogDet(MScale(RDiv("1", c.t), c.cov))>>))

\* Simpson's rule with 2m panels on [a, b]
Simpson(F(_), a, b, m) ==
    LET h == RDiv(RSub(b, a), 2 * m)
        w(k) == IF k = 0 \/ k = 2 * m THEN 1 ELSE IF k = 2 * (k \div 2) THEN 2 ELSE 4
    IN  RMul(RDiv(h, "3"), VSum([k \in 1..2*m+1 |-> RMul(w(k - 1), F(RAdd(a, RMul(k - 1, h))))]))
\* probabilities of the bins between consecutive edges; the outermost edges are far in the tails
Masses(F(_), edges, m) ==
    LET q == Forced([k \in 1..Len(edges)-1 |-> Simpson(F, edges[k], edges[k+1], m)])
        z == VSum(q)
    IN  Forced([k \in 1..Len(q) |-> RDiv(q[k], z)])
BinsOk(counts, n, ps) == Len(counts) = Len(ps) /\ \A k \in 1..Len(ps) : Frequency(counts[k], n, ps[k])

(* Finite systems, exact arithmetic *)
\* Two directions on a ring or line of sites with integer weights: mass of (site, direction)
Sites(w) == 1..Len(w)
Dirs == {1, 2}                                     \* up, down
Flip(p) == 3 - p
Target(w, k) == [i \in Sites(w) |-> [p \in Dirs |-> k * w[i]]]
Step(w, ring, i, p) == IF p = 1 THEN (IF i < Len(w) THEN i + 1 ELSE IF ring THEN 1 ELSE 0)
                       ELSE (IF i > 1 THEN i - 1 ELSE IF ring THEN Len(w) ELSE 0)
RECURSIVE SumOver(_, _)
SumOver(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN f[x] + SumOver(f, s \ {x})
\* momentum reversed, then kept or drawn anew (new out of R times)
Refreshed(w, m, new, rate) ==
    [i \in Sites(w) |-> [p \in Dirs |-> (m[i][Flip(p)] * 2 * (rate - new) + (m[i][1] + m[i][2]) * new) \div (2 * rate)]]
\* move along the direction and reverse it; accepted with probability min(1, w_j / w_i), otherwise nothing changes
Flow(w, ring, m, i, p) == LET j == Step(w, ring, i, p)
                          IN IF j = 0 \/ w[j] = 0 THEN 0 ELSE IF w[j] >= w[i] THEN m[i][p] ELSE (m[i][p] * w[j]) \div w[i]
Moved(w, ring, m) ==
    [j \in Sites(w) |-> [p \in Dirs |->
        m[j][p] - Flow(w, ring, m, j, p)
        + SumOver([i \in Sites(w) |-> IF Step(w, ring, i, Flip(p)) = j THEN Flow(w, ring, m, i, Flip(p)) ELSE 0], Sites(w))]]
=============================================================================
