-------------------------- MODULE MetropolisTrace --------------------------
(* Single transitions and whole chains of the real accept/reject step.     *)
EXTENDS Metropolis, TraceKit, Stats, Acceptance

VARIABLES l, st, bad
e == Trace[l]

SameR(a, b) == a = b \/ RClose(a, b, "1e-5", "1e-6")
SameV(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : SameR(u[i], v[i])
SameOn(a, b, fs) == \A f \in fs : f \in DOMAIN a /\ f \in DOMAIN b /\ SameV(a[f], b[f])
Same(a, b) == SameOn(a, b, DOMAIN a \cup DOMAIN b)

Clip(logratio) == IF RIsNaN(logratio) THEN "0" ELSE RMin("1", RExp(logratio))
HalfSq(v) == RMul("0.5", VSumSq(v))
PotDiff == RSub(e.rej.potential[1], e.prop.potential[1])

\* - ln q(to | from) of the drifting proposal, up to a constant
DriftPot(k, from, to) == RMul("0.5", VSumSq(VScale(RDiv("1", k.sd), VSub(to, VScale(k.shrink, from)))))
ExpectedAlpha ==
    CASE e.kind = "symmetric" -> Clip(PotDiff)
      [] e.kind = "momenta" -> Clip(RAdd(PotDiff, RSub(HalfSq(e.rej.momenta), HalfSq(e.prop.momenta))))
      [] e.kind = "drift" -> Clip(RAdd(PotDiff, RSub(DriftPot(e.drift, e.rej.value, e.prop.value), DriftPot(e.drift, e.prop.value, e.rej.value))))
      [] e.kind = "lattice" -> LET a == Alpha(e.cfg, e.i, e.j) IN RDiv(a[1], a[2])
      [] e.kind = "other" -> e.alpha
\* exact for a Gaussian likelihood with an isotropic Gaussian (or no) prior
Linear(m, x) == MVec(m.prec, VSub(x, m.mean))
ModelPot(m, x) == RAdd(RMul(m.priorprec, HalfSq(x)), RMul(m.temperature, RMul("0.5", VDot(VSub(x, m.mean), Linear(m, x)))))
ModelGrad(m, x) == VAdd(VScale(m.priorprec, x), VScale(m.temperature, Linear(m, x)))
PotOK(f) == f.potential[1] = e.model.inf \/ RClose(f.potential[1], ModelPot(e.model, f.value), "1e-3", "1e-3")
GradOK(f) == Has(f, "grad_potential") => VClose(f.grad_potential, ModelGrad(e.model, f.value), "1e-3", "2e-3")

Kept == (DOMAIN e.prev \cap DOMAIN e.rej) \ (IF e.kind = "momenta" \/ e.refreshed THEN {"momenta"} ELSE {})
MoveClauses ==
    << <<"the move starts from the recorded state", SameOn(e.prev, e.rej, Kept)>>,
       <<"the acceptance probability is min(1, ratio), zero if undefined", RClose(e.alpha, ExpectedAlpha, "1e-3", "1e-5")>>,
       <<"the acceptance probability is a probability", RLe("0", e.alpha) /\ RLe(e.alpha, "1")>>,
       <<"the next state is the whole proposed state or the whole previous state", Same(e.next, e.prop) \/ Same(e.next, e.rej)>>,
       <<"what the sampler carries along moves with the state",
         e.etag = "none" \/ (IF Same(e.next, e.rej) THEN e.etag = "old" ELSE e.etag = "new")>>,
       <<"a proposal of acceptance probability one is accepted", RLe("1", e.alpha) => Same(e.next, e.prop)>>,
       <<"a proposal of acceptance probability zero is rejected", RLe(e.alpha, "0") => Same(e.next, e.rej)>>,
       <<"no move from finite into infinite or undefined potential",
         RIsFinite(e.rej.potential[1]) => RIsFinite(e.next.potential[1])>> >>
    \o (IF Has(e, "model") THEN
        << <<"the recorded potential belongs to the recorded position", PotOK(e.next) /\ PotOK(e.prop)>>,
           <<"the recorded gradient belongs to the recorded position", GradOK(e.next) /\ GradOK(e.prop)>> >> ELSE <<>>)
    \o (IF Has(e, "fresh") THEN
        << <<"the recorded potential belongs to the recorded position",
             \A f \in DOMAIN e.fresh : f \notin DOMAIN e.next \/ \A i \in 1..Len(e.fresh[f]) :
                 e.fresh[f][i] = e.next[f][i] \/ RClose(e.fresh[f][i], e.next[f][i], "1e-3", "1e-3")>> >> ELSE <<>>)

StepsClauses ==
    << <<"random-walk steps are independent centred normals of variance stepsize",
         \A c \in 1..Len(e.z) : NormalSample(e.z[c])>>,
       <<"random-walk steps of different coordinates are independent",
         \A c \in 1..Len(e.z), d \in 1..Len(e.z) : c < d => NormIndep(e.z[c], e.z[d])>> >>
NoiseClauses ==
    << <<"random potentials are evaluated with fresh randomness", NormalSample(e.noise) /\ NormIndep(e.noise, e.z)>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Move" -> MoveClauses
             [] e.ev = "Accepts" -> AcceptanceClauses(e)
             [] e.ev = "Steps" -> StepsClauses
             [] e.ev = "Noise" -> NoiseClauses

TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = Keep(bad, Failing(l, e, Clauses))
             /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
