---------------------------- MODULE FilterTrace ----------------------------
(* Steps of real particle filters, judged by Filter.                       *)
(* Events: Model; Start (initial particles); Step (propagate, whole        *)
(* trajectories), Latest (only the newest states resampled), Marginal (one *)
(* step of the run over all observations, ancestry not recorded);          *)
(* Posterior (final weighted particles against exact inference).           *)
EXTENDS Filter, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
M == st.m
K == st.kind
D == Len(e.x[1])
LwTol(lw) == RAdd("2e-3", RMul("2e-5", VMaxR([k \in 1..Len(lw) |-> IF RIsFinite(lw[k]) THEN RAbs(lw[k]) ELSE "0"])))
Same(a, b, tol) == ~RIsNaN(a) /\ ~RIsNaN(b) /\ IF MinusInf(a) \/ MinusInf(b) THEN MinusInf(a) /\ MinusInf(b) ELSE RLe(RAbs(RSub(a, b)), tol)
SameLws(as, bs) == LET b == Forced(bs) tol == LwTol(b) IN \A k \in 1..Len(b) : Same(as[k], b[k], tol)
Plus(a, b) == IF MinusInf(a) \/ MinusInf(b) THEN "-Infinity" ELSE RAdd(a, b)

Alive(lw) == { k \in 1..Len(lw) : ~MinusInf(lw[k]) }
Lattice == M.kind = "lattice"
LatticeInc(x, z) == IF K = "guided" THEN RAdd(RNeg(RAdd(TransPot(M, x, st.t, z, e.t), ObsPot(M, z, e.y, e.t))), MinusLog(RDiv("1", Len(M.p)))) ELSE RNeg(ObsPot(M, z, e.y, e.t))
\* some models' potentials have no normalising constants: their weights are compared up to a common factor
Unnormalised == M.kind \in {"volatility", "benchmark"}
IncOf(x, z) == IF Lattice THEN LatticeInc(x, z) ELSE LogIncrement(K, M, x, st.t, z, e.y, e.t)
Anchored(as, bs) ==
    LET b == Forced(bs)  both == Alive(as) \cap Alive(b)
    IN  IF ~Unnormalised \/ both = {} THEN SameLws(as, b)
        ELSE LET k == CHOOSE i \in both : \A j \in both : i <= j
                 c == RSub(as[k], b[k])
             IN  SameLws(as, [i \in 1..Len(b) |-> RAdd(b[i], c)])
Means(xs) == [k \in 1..Len(xs) |-> PropMean(K, M, xs[k], st.t, e.y, e.t)]
Cov == PropCov(K, M, st.t, e.t)
Count(S) == Cardinality(S)
LatticeQ(i, j) == IF K = "guided" THEN RDiv("1", Len(M.p)) ELSE M.p[i][j]
Drawn(xs, zs) ==                             \* zs drawn from the proposal at xs
    IF Lattice
    THEN \A i \in 1..Len(M.p), j \in 1..Len(M.p) :
            LET from == { k \in 1..Len(xs) : At(xs[k]) = i } IN Frequency(Count({ k \in from : At(zs[k]) = j }), Count(from), LatticeQ(i, j))
    ELSE LET mu == Forced(Means(xs)) IN GaussianResiduals([k \in 1..Len(zs) |-> VSub(zs[k], mu[k])], Cov)

EssClause == <<"the effective sample size is that of the weights", Alive(e.lw) = {} \/ RClose(e.ess, Ess(e.lw), "1e-3", "1e-3")>>
TimeClause == <<"time and observation are recorded", RClose(e.seent, e.t, "1e-6", "0") /\ VClose(e.seeny, e.y, "1e-6", "0")>>

StartClauses ==
    << EssClause, TimeClause,
       <<"initial weights are the observation density (none if the draw already used the observation)",
         Anchored(e.lw, [k \in 1..Len(e.x) |-> IF e.blind THEN "0" ELSE InitialLogWeight(K, M, e.x[k], e.y, e.t)])>>,
       <<"initial particles have the initial distribution",
         IF Lattice THEN \A i \in 1..Len(M.p0) : Frequency(Count({ k \in 1..Len(e.x) : At(e.x[k]) = i }), Len(e.x), M.p0[i])
         ELSE LET mu == Forced(InitialMean(K, M, e.y, e.t)) IN GaussianResiduals([k \in 1..Len(e.x) |-> VSub(e.x[k], mu)], InitialCov(K, M, e.y, e.t))>> >>

(* One step.  X: the newest states before; P: the newest states the        *)
(* extended trajectories had before                                        *)
Due == FilterEdge(st.lw, st.thr) \/ FilterDue(st.lw, st.thr)
NotDue == FilterEdge(st.lw, st.thr) \/ ~FilterDue(st.lw, st.thr)
N == Len(st.lw)
From(base, xs) == Anchored(e.lw, [k \in 1..N |-> Plus(base[k], IncOf(xs[k], e.x[k]))])
Newest(trs) == [k \in 1..N |-> trs[k][Len(trs[k])]]
AliveSet(trs) == { trs[k] : k \in Alive(st.lw) }
Weights == NormalisedWeights(st.lw)
InProportion(before, after) ==
    LET w == Forced(Weights) d == Len(before[1]) IN
    /\ \A i \in 1..d : WeightedMean(w, [k \in 1..N |-> before[k][i]], [k \in 1..N |-> after[k][i]])
    /\ \A i \in 1..d : WeightedMean(w, [k \in 1..N |-> RSin(RMul("3", before[k][i]))], [k \in 1..N |-> RSin(RMul("3", after[k][i]))])
First(trs) == [k \in 1..N |-> trs[k][1]]

\* e.past[k]: trajectory k after the step without its newest state
KeptStep == NotDue /\ e.past = st.past /\ From(st.lw, Newest(e.past))
RenewedStep == Due /\ (LET alive == Forced(AliveSet(st.past)) IN \A k \in 1..N : e.past[k] \in alive) /\ From(Zeros(N), Newest(e.past))
StepClauses ==
    << EssClause, TimeClause,
       <<"earlier times, observations and effective sample sizes are unchanged", e.hist = st.hist>>,
       <<"trajectories are kept with their weights, or whole trajectories of positive weight are redrawn and reset, exactly when due; weights are carried times the ratio of densities", KeptStep \/ RenewedStep>>,
       <<"new states are drawn from the proposal at the end of their trajectory", Drawn(Newest(e.past), e.x)>> >>
    \o (IF KeptStep THEN << >> ELSE
        << <<"trajectories survive in proportion to their weight", InProportion(Newest(st.past), Newest(e.past)) /\ InProportion(First(st.past), First(e.past))>> >>)

\* only the newest states are redrawn
Older(trs) == [k \in 1..N |-> SubSeq(trs[k], 1, Len(trs[k]) - 1)]
LatestClauses ==
    LET kept == NotDue /\ e.past = st.past /\ From(st.lw, Newest(e.past))
        renewed == Due /\ Older(e.past) = Older(st.past) /\ (LET alive == { Newest(st.past)[k] : k \in Alive(st.lw) } IN \A k \in 1..N : Newest(e.past)[k] \in alive) /\ From(Zeros(N), Newest(e.past))
    IN << EssClause, TimeClause,
          <<"earlier times, observations and effective sample sizes are unchanged", e.hist = st.hist>>,
          <<"the newest states are kept with their weights, or redrawn and reset exactly when due", kept \/ renewed>>,
          <<"new states are drawn from the proposal at the newest states", Drawn(Newest(e.past), e.x)>> >>
       \o (IF kept THEN << >> ELSE << <<"states survive in proportion to their weight", InProportion(Newest(st.past), Newest(e.past))>> >>)

\* a step whose ancestors are not recorded; xs: states before
MarginalKept == NotDue /\ From(st.lw, Newest(st.past))
Plausible(mu, c, z) == \A i \in 1..Len(z) : RLe(RSq(RSub(z[i], mu[i])), RMul("64", c[i][i]))
MarginalRenewed ==
    /\ Due
    /\ LET xs == Forced(Newest(st.past))
           alive == Alive(st.lw)
           mu == IF Lattice THEN << >> ELSE Forced(Means(xs))
           c == IF Lattice THEN << >> ELSE Forced(Cov)
           tol == LwTol(e.lw)
       IN \A k \in 1..N : \E j \in alive :
            /\ IF Lattice THEN RLt("0", LatticeQ(At(xs[j]), At(e.x[k]))) ELSE Plausible(mu[j], c, e.x[k])
            /\ ~Unnormalised => Same(e.lw[k], IncOf(xs[j], e.x[k]), tol)
    /\ (Unnormalised /\ K = "bootstrap") => From(Zeros(N), e.x)
MarginalMoves ==
    LET xs == Forced(Newest(st.past)) w == Forced(Weights)
    IN IF Lattice
       THEN \A j \in 1..Len(M.p) : Frequency(Count({ k \in 1..N : At(e.x[k]) = j }), N, RMin("1", VSum([k \in 1..N |-> RMul(w[k], LatticeQ(At(xs[k]), j))])))
       ELSE LET mu == Forced(Means(xs)) c == Cov
            IN \A i \in 1..Len(c) :
                 LET g == [k \in 1..N |-> mu[k][i]] m == VDot(w, g)
                     var == RAdd(c[i][i], RMax("0", RSub(VDot(w, VMulE(g, g)), RSq(m))))
                 IN Within(RSub(VMean([k \in 1..N |-> e.x[k][i]]), m), RDiv(var, N), "1e-4")
MarginalClauses ==
    << EssClause, TimeClause,
       <<"weights are carried, or reset exactly when due, times the ratio of densities", MarginalKept \/ MarginalRenewed>> >>
    \o (IF MarginalKept THEN << <<"new states are drawn from the proposal at their previous state", Drawn(Newest(st.past), e.x)>> >>
        ELSE << <<"new states are drawn from the proposal at states surviving in proportion to their weight", MarginalMoves>> >>)

(* Final weighted particles against exact inference (linear kinds).  The   *)
(* standard error allows a tenfold variance over independent draws.        *)
PosteriorClauses ==
    LET post == Posterior(M, e.ts, e.ys, Len(e.ts))
        d == Len(M.mean)
        mu == BlockOf(post.mean, Len(e.ts), d)
        c == MBlock(post.cov, Len(e.ts), Len(e.ts), d)
        w == Forced(NormalisedWeights(e.lw))
        v(i) == RDiv(RMul("10", c[i][i]), Ess(e.lw))
        at(i) == [k \in 1..Len(e.x) |-> RSub(e.x[k][i], mu[i])]
    IN << <<"the filtering mean is that of the model", \A i \in 1..d : Within(VDot(w, at(i)), v(i), "0")>>,
          <<"the filtering variance is that of the model", \A i \in 1..d : Within(RSub(VDot(w, VMulE(at(i), at(i))), c[i][i]), RMul(RMul("2", c[i][i]), v(i)), "0")>> >>

(* Ensemble Kalman filter: a large ensemble moved to the Kalman update of  *)
(* its own prediction                                                      *)
Cross(g, h) == RSub(RDiv(VDot(g, h), Len(g)), RMul(VMean(g), VMean(h)))
EnsembleClauses ==
    LET d == D  n == Len(e.x)
        mu == Forced([k \in 1..n |-> TransMean(M, e.before[k], st.t, e.t)])
        mf == Forced([i \in 1..d |-> VMean([k \in 1..n |-> mu[k][i]])])
        q == TransCov(M, st.t, e.t)
        pf == Forced([i \in 1..d |-> [j \in 1..d |-> RAdd(q[i][j], Cross([k \in 1..n |-> mu[k][i]], [k \in 1..n |-> mu[k][j]]))]])
        h == ObsMatrix(M, e.t)  r == ObsCov(M, << >>, e.t)
        inn == VSub(e.y, MVec(h, mf))
        nu == Quad(inn, MInv(MAdd(MMul(MMul(h, pf), MTr(h)), r)), inn)
        am == Forced(CondMean(mf, pf, h, r, e.y))  ac == Forced(CondCov(pf, h, r))
        col(i) == Forced([k \in 1..n |-> e.x[k][i]])
    IN << TimeClause,
          <<"the ensemble is unweighted", \A k \in 1..n : REq(e.lw[k], e.lw[1])>>,
          <<"the ensemble mean is the Kalman update of the predicted ensemble",
            \A i \in 1..d : Within(RSub(VMean(col(i)), am[i]), RDiv(RMul(pf[i][i], RAdd("1", RMul("2", nu))), n), "0")>>,
          <<"the ensemble covariance is the Kalman update of that of the predicted ensemble",
            \A i \in 1..d, j \in 1..d : Within(RSub(Cross(col(i), col(j)), ac[i][j]), RDiv(RMul("8", RMul(pf[i][i], pf[j][j])), n), "0")>> >>

(* The filter's densities and single draws, evaluated on their own         *)
PartsClauses ==
    << <<"the proposal potential is that of the proposal",
         \A k \in 1..Len(e.z) : RClose(e.prop[k], GaussPot(e.z[k], PropMean(K, M, e.x[k], e.s, e.y, e.t), PropCov(K, M, e.s, e.t)), "1e-4", "3e-3")>>,
       <<"the initial potential is that of the initial draws",
         \A k \in 1..Len(e.z) : RClose(e.init[k], GaussPot(e.z[k], InitialMean(K, M, e.y, e.t), InitialCov(K, M, e.y, e.t)), "1e-4", "3e-3")>>,
       <<"the weight of a single particle is the ratio of densities",
         LET w == Forced([k \in 1..Len(e.z) |-> LogIncrement(K, M, e.x[k], e.s, e.z[k], e.y, e.t)]) IN \A k \in 1..Len(e.z) : Same(e.lw[k], w[k], LwTol(w))>>,
       <<"single proposals have the proposal distribution",
         LET mu == Forced(PropMean(K, M, e.x[1], e.s, e.y, e.t)) IN GaussianResiduals([k \in 1..Len(e.draws) |-> VSub(e.draws[k], mu)], PropCov(K, M, e.s, e.t))>>,
       <<"single initial draws have the initial distribution",
         LET mu == Forced(InitialMean(K, M, e.y, e.t)) IN GaussianResiduals([k \in 1..Len(e.inits) |-> VSub(e.inits[k], mu)], InitialCov(K, M, e.y, e.t))>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Model" -> << >>
             [] e.ev = "Start" -> StartClauses
             [] e.ev = "Step" -> StepClauses
             [] e.ev = "Latest" -> LatestClauses
             [] e.ev = "Marginal" -> MarginalClauses
             [] e.ev = "Parts" -> PartsClauses
             [] e.ev = "Ensemble" -> EnsembleClauses
             [] e.ev = "Posterior" -> PosteriorClauses

TraceInit == l = 1 /\ st = [kind |-> ""] /\ bad = <<>>
Extended == [k \in 1..Len(e.x) |-> Append(e.past[k], e.x[k])]
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Model" -> [m |-> e.m, kind |-> e.kind, thr |-> e.thr]
               [] e.ev = "Start" -> [m |-> st.m, kind |-> st.kind, thr |-> st.thr, lw |-> e.lw, t |-> e.t, past |-> [k \in 1..Len(e.x) |-> << e.x[k] >>], hist |-> e.newhist]
               [] e.ev \in {"Step", "Latest"} -> [st EXCEPT !.lw = e.lw, !.t = e.t, !.past = Extended, !.hist = e.newhist]
               [] e.ev \in {"Marginal", "Ensemble"} -> [st EXCEPT !.lw = e.lw, !.t = e.t, !.past = [k \in 1..Len(e.x) |-> << e.x[k] >>]]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
