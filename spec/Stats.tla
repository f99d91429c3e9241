------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Acceptance regions for random quantities.  All bounds are six standard  *)
(* errors (or the equivalent tail), so that a correct implementation is    *)
(* rejected with probability below about 1e-8 per test; the random keys    *)
(* are fixed, so that the outcome does not vary between runs.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Real

Sigmas == "6"
\* |deviation| is at most six times the square root of the variance (slack absorbs rounding)
Within(dev, var, slack) == RLe(RAbs(dev), RAdd(slack, RMul(Sigmas, RSqrt(var))))

\* c of n independent events of probability p (6 more covers small expectations)
Frequency(c, n, p) ==
    Within(RSub(c, RMul(n, p)), RMul(n, RMul(p, RSub("1", p))), IF REq(p, "0") \/ REq(p, "1") THEN "0" ELSE "6")

\* independent events with probabilities ps, outcome count c
Events(c, ps) ==
    Within(RSub(c, VSum(ps)), VSum([i \in 1..Len(ps) |-> RMul(ps[i], RSub("1", ps[i]))]), "6")

\* zs: independent standard normals
NormMean(zs)   == Within(VSum(zs), Len(zs), "0")
NormSquare(zs) == Within(RSub(VSumSq(zs), Len(zs)), 2 * Len(zs), "6")
NormCube(zs)   == Within(VSumPow(zs, 3), 15 * Len(zs), "30")
NormLag(zs)    == Within(VDot(SubSeq(zs, 1, Len(zs) - 1), SubSeq(zs, 2, Len(zs))), Len(zs), "6")
NormIndep(us, vs) == Within(VDot(us, vs), Len(us), "6")

\* the empirical distribution of us is uniform on [0,1] (Kolmogorov: 3/sqrt(n) has tail 3e-8)
Uniform01(us) ==
    LET s == VSort(us)  n == Len(us)  d == RDiv("3", RSqrt(n))
    IN  \A i \in 1..n : RLe(RAbs(RSub(RDiv(2 * i - 1, 2 * n), s[i])), d)
StandardNormal(zs) == Uniform01([i \in 1..Len(zs) |-> RPhi(zs[i])])

NormalSample(zs) == NormMean(zs) /\ NormSquare(zs) /\ NormLag(zs) /\ StandardNormal(zs)

\* ds: independent draws of N(0, c)
GaussianResiduals(ds, c) ==
    LET d == Len(c)
        z == Forced([i \in 1..d |-> LET s == RSqrt(c[i][i]) IN [k \in 1..Len(ds) |-> RDiv(ds[k][i], s)]])
    IN  /\ \A i \in 1..d : NormalSample(z[i])
        /\ \A i \in 1..d, j \in 1..d : i < j =>
              LET rho == RDiv(c[i][j], RSqrt(RMul(c[i][i], c[j][j])))
              IN  Within(RSub(VDot(z[i], z[j]), RMul(Len(ds), rho)), RMul(Len(ds), RAdd("1", RSq(rho))), "6")

\* mean of g over draws h against the mean of g under weights w (sum one); n draws
WeightedMean(w, g, h) ==
    LET mu == VDot(w, g)
        var == RMax("0", RSub(VDot(w, VMulE(g, g)), RSq(mu)))
        size == RAdd(VMaxR([k \in 1..Len(g) |-> RAbs(g[k])]), "1")
    IN  Within(RSub(VMean(h), mu), RDiv(var, Len(h)), RMul("1e-5", size))

\* mean of values xs against mu, with standard error estimated from the sample itself
SampleMean(xs, mu) ==
    LET n == Len(xs)  m == VMean(xs)
        v == RDiv(VSumSq(VShift(RNeg(m), xs)), n - 1)
    IN  Within(RSub(m, mu), RDiv(v, n), "1e-6")
=============================================================================
