----------------------------- MODULE WeightTrace -----------------------------
(* Every ensemble of real tempered runs, judged by SMC.  Particles carry   *)
(* the identity (tag) of the initial particle they descend from and count  *)
(* the moves made on them.                                                 *)
EXTENDS SMC, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
N == Len(st.lw)
LwTol(lw) == RAdd("2e-4", RMul("2e-6", VMaxR([k \in 1..Len(lw) |-> IF RIsFinite(lw[k]) THEN RAbs(lw[k]) ELSE "0"])))
SameLw(a, b, tol) == RIsNaN(a) = RIsNaN(b) /\ ~RIsNaN(a) /\ IF MinusInf(a) \/ MinusInf(b) THEN REq(a, b) ELSE RLe(RAbs(RSub(a, b)), tol)
SameLws(as, bs) == LET b == Forced(bs) tol == LwTol(b) IN \A k \in 1..Len(b) : SameLw(as[k], b[k], tol)

\* one particle's potentials: recorded against re-evaluated at the recorded position
PotTol(p) == RAdd("1e-3", RMul("2e-5", RAdd(RAbs(p.prior), RAbs(p.pot))))
SamePot(a, b, tol) == IF RIsFinite(a) /\ RIsFinite(b) THEN RLe(RAbs(RSub(a, b)), tol) ELSE REq(a, b)
Belongs(p, t) ==
    LET tol == PotTol(p)
    IN  /\ SamePot(p.prior, p.truePrior, tol)
        /\ SamePot(p.lik, p.trueLik, IF RIsFinite(p.pot) THEN RDiv(tol, st.cfg.mint) ELSE tol)
        /\ SamePot(p.pot, IF RIsFinite(p.trueLik) THEN RAdd(p.truePrior, RMul(t, p.trueLik)) ELSE p.trueLik, tol)

Due == OnTheEdge(st.lw, st.cfg.resample) \/ ResampleDue(st.lw, st.cfg.resample)
NotDue == OnTheEdge(st.lw, st.cfg.resample) \/ ~ResampleDue(st.lw, st.cfg.resample)
Lik == [k \in 1..N |-> e.ps[k].lik]
Tags(x) == [k \in 1..Len(x) |-> x[k].tag]
Follows(base) ==
    SameLws(e.lw, Reweighted(base, RSub(e.t, st.t), Lik))
EvidenceFrom(base) == RLe(RAbs(RSub(RSub(e.z, st.z), RSub(VLogSumExp(e.lw), VLogSumExp(base)))), LwTol(e.lw))
\* an increment so small or a likelihood so flat that both readings fit is judged as either
Kept == NotDue /\ Follows(st.lw) /\ EvidenceFrom(st.lw) /\ Tags(e.ps) = Tags(st.ps)
Renewed == Due /\ Follows(Zeros(N)) /\ EvidenceFrom(Zeros(N))

Weight == NormalisedWeights(st.lw)
\* mean of g over the survivors against the weighted mean before
Weighted(g, h) == LET w == Forced(Weight)
                      mu == VDot(w, g)
                      var == RMax("0", RSub(VDot(w, [k \in 1..N |-> RSq(g[k])]), RSq(mu)))
                  IN  Within(RSub(VMean(h), mu), RDiv(var, N), "1e-5")
TagShare(ps) == [k \in 1..N |-> RDiv(ps[k].tag, N)]
FitOf(ps) == [k \in 1..N |-> st.fit[ps[k].tag + 1]]
Likelihood(s) == [k \in 1..Len(s) |-> RExp(s[k])]
AliveTags == { st.ps[k].tag : k \in { j \in 1..N : ~MinusInf(st.lw[j]) } }
Rows(ps) == { <<ps[k].tag, ps[k].x>> : k \in 1..N }
AliveRows == { <<st.ps[k].tag, st.ps[k].x>> : k \in { j \in 1..N : ~MinusInf(st.lw[j]) } }

EnsembleClauses ==
    << <<"the effective sample size is that of the weights", RClose(e.ess, Ess(e.lw), "1e-3", "1e-3")>>,
       <<"potentials belong to the recorded positions at the recorded temperature", \A k \in 1..Len(e.ps) : Belongs(e.ps[k], e.t)>> >>
StartClauses ==
    EnsembleClauses \o
    << <<"initial weights are the likelihood at the first temperature", SameLws(e.lw, Reweighted(Zeros(Len(e.lw)), e.t, [k \in 1..Len(e.ps) |-> e.ps[k].lik]))>>,
       <<"the initial evidence is the mean weight", RLe(RAbs(RSub(e.z, RSub(VLogSumExp(e.lw), RLog(Len(e.lw))))), LwTol(e.lw))>>,
       <<"the initial particles are those supplied", \A k \in 1..Len(e.ps) : e.ps[k].tag = k - 1>> >>
StepClauses ==
    EnsembleClauses \o
    << <<"weights, evidence and identities are carried over, or renewed exactly when the effective sample size is at or below the threshold", Kept \/ Renewed>>,
       <<"every particle is moved the requested number of times", \A k \in 1..N : e.ps[k].count = e.i * st.cfg.moves>>,
       <<"particles are moved at the temperature of their weights", \A k \in 1..N : RClose(e.ps[k].seen, st.t, "1e-6", "0")>>,
       <<"particles are moved with the current stepsize", \A k \in 1..N : RClose(e.ps[k].used, st.stepsize, "1e-5", "0")>> >>
    \o (IF st.cfg.frozen /\ Kept THEN << <<"particles that cannot move stay as they were", \A k \in 1..N : MinusInf(st.lw[k]) \/ e.ps[k].x = st.ps[k].x>> >> ELSE << >>)
    \o (IF Kept THEN << >> ELSE
        << <<"particles of zero weight do not survive resampling", LET alive == Forced(AliveTags) IN \A k \in 1..N : e.ps[k].tag \in alive>>,
           <<"particles survive in proportion to their weight",
             /\ Weighted(TagShare(st.ps), TagShare(e.ps))
             /\ Weighted(FitOf(st.ps), FitOf(e.ps)) /\ Weighted(Likelihood(FitOf(st.ps)), Likelihood(FitOf(e.ps)))>>,
           <<"whole particles are drawn", st.cfg.frozen => Rows(e.ps) \subseteq AliveRows>> >>)
    \o (IF Has(e, "stepsize") THEN
        << <<"the stepsize follows the Robbins-Monro recursion on the weighted acceptance rate",
             RClose(RLog(e.stepsize), RAdd(RLog(st.stepsize), RMul(st.cfg.rm, RSub(VDot(NormalisedWeights(e.lw), [k \in 1..N |-> e.ps[k].alpha]), st.cfg.target))), "1e-3", "1e-3")>> >> ELSE << >>)
Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Config" -> << >>
             [] e.ev = "Start" -> StartClauses
             [] e.ev = "Step" -> StepClauses

TraceInit == l = 1 /\ st = [i |-> 0, cfg |-> [mint |-> "1"]] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Config" -> [cfg |-> e.cfg]
               [] e.ev = "Start" -> [cfg |-> st.cfg, lw |-> e.lw, t |-> e.t, z |-> e.z, ps |-> e.ps, stepsize |-> e.stepsize, fit |-> e.fit]
               [] e.ev = "Step" -> [st EXCEPT !.lw = e.lw, !.t = e.t, !.z = e.z, !.ps = e.ps, !.stepsize = IF Has(e, "stepsize") THEN e.stepsize ELSE st.stepsize]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
