-------------------------------- MODULE EKI --------------------------------
(***************************************************************************)
(* Tempered ensemble Kalman inversion.  The ensemble holds members xs with *)
(* simulated data ys at temperature t.  One iteration                      *)
(*   Raise     the temperature to u (schedule, default or adaptive rule)   *)
(*   Perturb   draws p_i with covariance (a-1)(C(y|x) + nugget),           *)
(*             a = 1/(u-t); none when a <= 1                               *)
(*   Move      x_i += G (data - y_i + p_i),                                *)
(*             G = C(xy) inv(C(y) + (a-1) C(y|x) + nugget)                 *)
(*   Simulate  new data for every member                                   *)
(* with C the empirical covariances of the ensemble before the move.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real

ColMean(m) == [j \in 1..Len(m[1]) |-> VMean([i \in 1..Len(m) |-> m[i][j]])]
Centred(m) == LET c == Forced(ColMean(m)) IN Forced([i \in 1..Len(m) |-> VSub(m[i], c)])
Cross(a, b) == Forced(MScale(RDiv("1", Len(a) - 1), MMul(MTr(a), b)))
Nugget(m, nug) == MAdd(m, MScale(nug, MId(Len(m))))
Covariances(xs, ys) ==
    LET a == Centred(xs)  b == Centred(ys)
    IN [x |-> Cross(a, a), xy |-> Cross(a, b), y |-> Cross(b, b)]
Conditional(c, nug) == Forced(MSub(c.y, MMul(MTr(c.xy), MMul(MInv(Nugget(c.x, nug)), c.xy))))
Gain(c, cond, a, nug) == Forced(MMul(c.xy, MInv(Nugget(MAdd(c.y, MScale(RSub(a, "1"), cond)), nug))))
PerturbationCov(cond, a, nug) == MScale(RMax("0", RSub(a, "1")), Nugget(cond, nug))
Inflation(t, u) == RDiv("1", RSub(u, t))

\* what remains of the moves without perturbations
Remainders(xs, ys, news, data, g) ==
    Forced([i \in 1..Len(xs) |-> VSub(VSub(news[i], xs[i]), MVec(g, VSub(data, ys[i])))])

(* The temperatures *)
DefaultRule(iter, max) == RMin(RRound(RSub(RPow("2", RDiv(iter, "50")), "1"), 4), max)
Misfits(ys, data, cond, nug) ==
    LET p == Forced(MInv(Nugget(cond, nug)))
    IN Forced([i \in 1..Len(ys) |-> RMul("0.5", Quad(VSub(ys[i], data), p, VSub(ys[i], data)))])
LogEssOf(lw) == RSub(RMul("2", VLogSumExp(lw)), VLogSumExp(VScale("2", lw)))
LogEssAt(t, u, misfits) == LogEssOf(VScale(RSub(t, u), misfits))

(* The end *)
Spread(xs) == LET a == Centred(xs) IN
    [j \in 1..Len(xs[1]) |-> RSqrt(RDiv(VSumSq([i \in 1..Len(a) |-> a[i][j]]), Len(xs) - 1))]
Contracted(xs, start, fraction) == \A j \in 1..Len(start) : RLt(Spread(xs)[j], RMul(fraction, start[j]))

(* Moments of an infinite ensemble under a linear simulator y = h x + N(0, r) *)
LinearStep(m, p, h, r, data, a) ==
    LET s == MAdd(MMul(h, MMul(p, MTr(h))), MScale(a, r))
        g == Forced(MMul(p, MMul(MTr(h), MInv(s))))
        k == Forced(MSub(MId(Len(m)), MMul(g, h)))
    IN [m |-> Forced(VAdd(m, MVec(g, VSub(data, MVec(h, m))))),
        p |-> Forced(MAdd(MMul(k, MMul(p, MTr(k))), MScale(a, MMul(g, MMul(r, MTr(g))))))]
Tempered(m, p, h, r, data, t) ==
    LET q == Forced(MInv(p))  b == MMul(MTr(h), MInv(r))
        c == Forced(MInv(MAdd(q, MScale(t, MMul(b, h)))))
    IN [m |-> Forced(MVec(c, VAdd(MVec(q, m), VScale(t, MVec(b, data))))), p |-> c]
=============================================================================
