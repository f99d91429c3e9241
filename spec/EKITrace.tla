------------------------------ MODULE EKITrace ------------------------------
(* Recorded ensemble Kalman runs, judged by EKI: every step is recomputed  *)
(* from the ensemble before it, and the perturbations are recovered from   *)
(* what the moves leave over.                                              *)
EXTENDS EKI, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
\* simulators: y = f(x) + N(0, r), f(x) = h x + cube (h x)^3
F(m, x) == LET y == Forced(MVec(m.h, x)) IN [k \in 1..Len(y) |-> RAdd(y[k], RMul(m.cube, RPow(y[k], 3)))]
Noise(m, xs, ys) == Forced([i \in 1..Len(xs) |-> VSub(ys[i], F(m, xs[i]))])
Column(m, k) == Forced([i \in 1..Len(m) |-> m[i][k]])
Cols(m, sds) == Forced([k \in 1..Len(sds) |-> [i \in 1..Len(m) |-> RDiv(m[i][k], sds[k])]])
Many(xs) == Len(xs) >= 30
SimulatedBy(m, xs, ys) ==
    LET w == Noise(m, xs, ys) IN
    /\ \A k \in 1..Len(m.r) : (\A i \in 1..Len(xs) : ~RIsNaN(w[i][k])) /\ \E i \in 2..Len(xs) : ~REq(w[i][k], w[1][k])
    /\ Many(xs) => GaussianResiduals(w, m.r)
FromPrior(m, xs) == Many(xs) => GaussianResiduals(Forced([i \in 1..Len(xs) |-> VShift(RNeg(m.centre), xs[i])]), MDiag(m.prior))
Independent(a, b) == \A k \in 1..Len(a) : (Many(a[k]) /\ Len(a[k]) = Len(b[k])) => NormIndep(a[k], b[k])

SameT(a, b) == RClose(a, b, "3e-7", "1e-7")
\* state kept: xs ys t i, cfg, z (perturbations of the last step, standardised), w (noise of the last simulation)
Std(m, w) == Cols(w, [k \in 1..Len(m.r) |-> RSqrt(m.r[k][k])])

\* 1: certainly contracted, 0: certainly not, 2: too close to tell
ContractedAt(xs) ==
    IF REq(st.cfg.term, "0") THEN 0
    ELSE IF Contracted(xs, st.start, RMul(st.cfg.term, "0.9999")) THEN 1
    ELSE IF Contracted(xs, st.start, RMul(st.cfg.term, "1.0001")) THEN 2 ELSE 0
Undefined(xs) == \E i \in 1..Len(xs) : \E k \in 1..Len(xs[i]) : RIsNaN(xs[i][k])
MustStop == RLe(st.cfg.max, st.t) \/ st.i >= st.cfg.budget \/ ContractedAt(st.xs) = 1 \/ Undefined(st.xs)
MayStop == MustStop \/ ContractedAt(st.xs) = 2

StartClauses ==
    << <<"a run starts at temperature zero", REq(e.t, "0")>>,
       <<"the ensemble starts where it was asked to, or from the prior", IF e.given = <<>> THEN FromPrior(e.model, e.xs) ELSE MClose(e.xs, e.given, "1e-6", "1e-7")>>,
       IF e.sims = <<>> THEN <<"the first data are simulated from the members", SimulatedBy(e.model, e.xs, e.ys)>>
       ELSE <<"supplied data are used", MClose(e.ys, e.sims, "1e-6", "1e-6")>> >>

Step ==
    LET c == Covariances(st.xs, st.ys)
        nug == st.cfg.nugget
        cond == Conditional(c, nug)
        a == Inflation(st.t, e.t)
        g == Gain(c, cond, a, nug)
        r == Remainders(st.xs, st.ys, e.xs, st.data, g)
    IN [cond |-> cond, a |-> a, g |-> g, r |-> r, cov |-> PerturbationCov(cond, a, nug), c |-> c]
Size(m) == VMaxR([i \in 1..Len(m) |-> VMaxR([k \in 1..Len(m[i]) |-> RAbs(m[i][k])])])
Tall(s) == Len(s.g[1]) <= Len(s.g)   \* the gain can be undone
Perturbations(s) ==
    LET gi == Forced(MMul(MInv(MMul(MTr(s.g), s.g)), MTr(s.g)))
    IN Forced([i \in 1..Len(s.r) |-> MVec(gi, s.r[i])])
Draws(s) == IF Tall(s) THEN Perturbations(s) ELSE s.r
DrawsCov(s) == IF Tall(s) THEN s.cov ELSE Forced(MMul(s.g, MMul(s.cov, MTr(s.g))))
StdDraws(d, c) == Forced(Cols(d, [k \in 1..Len(c) |-> RSqrt(c[k][k])]))
Spans(s, p) == LET back == Forced([i \in 1..Len(p) |-> MVec(s.g, p[i])])
               IN MClose(back, s.r, "0", RAdd("2e-4", RMul("3e-3", Size(s.r))))

TemperatureClauses(s) ==
    << <<"temperatures increase", RLt(st.t, e.t)>>,
       <<"temperatures never exceed the maximum", RLe(e.t, RAdd(st.cfg.max, "1e-6"))>>,
       CASE st.cfg.rule = "schedule" -> <<"the temperatures are those of the schedule", st.i + 2 <= Len(st.cfg.schedule) /\ SameT(e.t, st.cfg.schedule[st.i + 2])>>
         [] st.cfg.rule = "default" -> <<"the default temperatures are 2^(i/50) - 1 up to the maximum", RClose(e.t, DefaultRule(st.i + 1, st.cfg.max), "1e-6", "1.01e-4")>>
         [] st.cfg.rule = "own" -> <<"the temperatures are those of the given rule", SameT(e.t, RMin(RMul("0.3", st.i + 1), st.cfg.max))>>
         [] OTHER -> <<"the adaptive temperature keeps the requested fraction of the effective sample size, or is the maximum if that keeps more",
                       LET m == Misfits(st.ys, st.data, s.cond, st.cfg.nugget)
                           want == RAdd(RLog(st.cfg.fraction), RLog(Len(st.ys)))
                           got == LogEssAt(st.t, e.t, m)
                       IN IF SameT(e.t, st.cfg.max) THEN RLe(want, RAdd(got, "5e-3")) ELSE RLe(RAbs(RSub(got, want)), "5e-3")>> >>
MoveClauses(s, d, c) ==
    IF RLe(s.a, "1.0001")
    THEN << <<"members move by the gain times their innovations", MClose(s.r, [i \in 1..Len(s.r) |-> [k \in 1..Len(s.r[i]) |-> "0"]], "0", RAdd("3e-4", RMul("2e-3", Size(e.xs))))>> >>
    ELSE << <<"members move by the gain times their perturbed innovations", ~Tall(s) \/ Spans(s, d)>>,
            <<"perturbations have the stated covariance", Many(d) => GaussianResiduals(d, c)>>,
            <<"perturbations differ between members", \E i \in 2..Len(d) : ~VClose(d[i], d[1], "1e-4", "1e-6")>>,
            <<"perturbations of successive steps are independent", st.z # <<>> => Independent(StdDraws(d, c), st.z)>>,
            <<"perturbations are independent of the simulated data",
              (Tall(s) /\ Many(d)) => Independent(StdDraws(d, c), Std(st.model, Noise(st.model, e.xs, e.ys)))>> >>
SimulationClauses ==
    << <<"data are simulated anew for the moved members", SimulatedBy(st.model, e.xs, e.ys)>>,
       <<"simulations of successive steps are independent",
         ~st.supplied => Independent(Std(st.model, Noise(st.model, e.xs, e.ys)), Std(st.model, st.w))>> >>
StepClauses ==
    << <<"the run stops at the maximum temperature, at the iteration limit or once contracted", ~MustStop>> >>
    \o (IF Undefined(e.xs) THEN << <<"members stay finite", FALSE>> >>
        ELSE LET s == Forced(Step)
                 d == IF RLe(s.a, "1.0001") THEN <<>> ELSE Draws(s)
                 c == IF RLe(s.a, "1.0001") THEN <<>> ELSE DrawsCov(s)
             IN TemperatureClauses(s) \o MoveClauses(s, d, c) \o SimulationClauses)
EndClauses == << <<"the run goes on until the maximum temperature, the iteration limit or contraction", MayStop>>,
                 <<"every recorded ensemble has the requested number of members", Len(st.xs) = e.n>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Start" -> StartClauses
             [] e.ev = "Step" -> StepClauses
             [] e.ev = "End" -> EndClauses

TraceInit == l = 1 /\ st = [i |-> 0] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Start" -> [cfg |-> e.cfg, data |-> e.data, model |-> e.model, i |-> 0, t |-> e.t, xs |-> e.xs, ys |-> e.ys,
                                     start |-> Spread(e.xs), z |-> <<>>, w |-> Noise(e.model, e.xs, e.ys), supplied |-> e.sims # <<>>]
               [] e.ev = "Step" -> LET s == Forced(Step) IN
                                   [st EXCEPT !.i = st.i + 1, !.t = e.t, !.xs = e.xs, !.ys = e.ys, !.w = Noise(st.model, e.xs, e.ys), !.supplied = FALSE,
                                              !.z = IF RLe(s.a, "1.0001") \/ Undefined(e.xs) THEN <<>> ELSE StdDraws(Draws(s), DrawsCov(s))]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
