--------------------------- MODULE InvarianceTrace ---------------------------
EXTENDS Invariance, TraceKit

VARIABLES l, st, bad
e == Trace[l]

\* n exact draws before (suffix 0) and after the transitions; m momenta recorded with the position
MomentClauses ==
    LET m == Forced(JointMean(e.target, e.momenta))
        s == Forced(JointCov(e.target, e.momenta))
    IN << <<"the chains are started from exact draws", GaussianFirst(e.n, e.start1, m, s) /\ GaussianSecond(e.n, e.start2, m, s)>>,
          <<"the mean of the target is left invariant", GaussianFirst(e.n, e.s1, m, s)>>,
          <<"the covariance of the target is left invariant", GaussianSecond(e.n, e.s2, m, s)>>,
          <<"the chains have moved", RLe(RMul("0.3", e.n), e.moved)>> >>

\* a one-dimensional potential, or coordinates of a sum of equal ones
Density1(x) == RExp(RNeg(Tempered(e.target, <<x>>, e.target.t)))
BinClauses ==
    LET ps == Masses(Density1, e.edges, e.panels)
    IN << <<"the chains are started from exact draws", \A k \in 1..Len(e.start) : BinsOk(e.start[k], e.n, ps)>>,
          <<"the distribution is left invariant", \A k \in 1..Len(e.counts) : BinsOk(e.counts[k], e.n, ps)>>,
          <<"coordinates stay independent", Len(e.both) = 0 \/ Within(RSub(e.both[1], RDiv(RMul(e.both[2], e.both[3]), e.n)), RDiv(e.n, "16"), "6")>>,
          <<"the chains have moved", RLe(RMul("0.3", e.n), e.moved)>> >>

\* linear simulator a x + noise within a threshold of the data, normal prior
Inside(c, x) == RSub(RPhi(RDiv(RSub(RAdd(c.data, c.threshold), RMul(c.a, x)), c.noise)), RPhi(RDiv(RSub(RSub(c.data, c.threshold), RMul(c.a, x)), c.noise)))
AbcDensity(x) == RMul(RExp(RMul("-0.5", RSq(RDiv(RSub(x, e.target.mean), e.target.sd)))), Inside(e.target, x))
AbcClauses ==
    LET ps == Masses(AbcDensity, e.edges, e.panels)
    IN << <<"the chains are started from exact draws", \A k \in 1..Len(e.start) : BinsOk(e.start[k], e.n, ps)>>,
          <<"the simulator-based posterior is left invariant", \A k \in 1..Len(e.counts) : BinsOk(e.counts[k], e.n, ps)>>,
          <<"every recorded distance is strictly within the threshold", e.outside = 0>>,
          <<"the chains have moved", RLe(RMul("0.3", e.n), e.moved)>> >>

\* independent runs of a small ensemble: sums of evidence estimates (relative to exp(ref)) and of them times the weighted mean
EvidenceClauses ==
    LET z == RExp(RSub(LogEvidence(e.target), e.ref))
        m == TargetMean(e.target)
        Unbiased(s, q, mu) == LET mean == RDiv(s, e.n) IN Within(RSub(mean, mu), RDiv(RSub(RDiv(q, e.n), RSq(mean)), e.n), "1e-5")
    IN << <<"the expected evidence estimate is the evidence", Unbiased(e.z1, e.z2, z)>>,
          <<"evidence-weighted means are unbiased for the target mean", \A i \in 1..Len(m) : Unbiased(e.m1[i], e.m2[i], RMul(z, m[i]))>>,
          <<"evidence-weighted second moments are unbiased", \A i \in 1..Len(m) : Unbiased(e.v1[i], e.v2[i], RMul(z, RAdd(TargetCov(e.target)[i][i], RSq(m[i]))))>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Moments" -> MomentClauses
             [] e.ev = "Bins" -> BinClauses
             [] e.ev = "Abc" -> AbcClauses
             [] e.ev = "Evidence" -> EvidenceClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = Keep(bad, Failing(l, e, Clauses))
             /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
