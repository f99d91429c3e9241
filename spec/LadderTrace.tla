----------------------------- MODULE LadderTrace -----------------------------
(* The rungs climbed by real tempered ensembles, judged by SMC.  An        *)
(* ensemble state holds what the next rung is decided from.                *)
EXTENDS SMC, TraceKit

VARIABLES l, st, bad
e == Trace[l]
Adaptive == st.cfg.adaptive
Schedule == StripZero(st.cfg.schedule)
Top == IF Adaptive THEN st.cfg.max ELSE Schedule[Len(Schedule)]
MaxIter == IF Adaptive THEN st.cfg.budget ELSE Len(Schedule)
Reached(t) == RLe(Top, t)
SameT(a, b) == RClose(a, b, "2e-7", "0")

\* what the effective sample size is relative to: after resampling, or not
Right(base, t, u, lik) ==
    LET want == RAdd(RLog(st.cfg.retain), LogEss(base))
        got  == Keeps(base, t, u, lik)
        tol  == RAdd("1e-3", RMul("3e-6", RAdd(RAbs(VMaxR(base)), RAbs(VMinR(base)))))
    IN  IF SameT(u, Top) THEN RLe(want, RAdd(got, tol)) ELSE RLe(RAbs(RSub(got, want)), tol)
AdaptiveRung(lw, t, u, lik) ==
    \/ Right(CarriedOver(lw, st.cfg.resample), t, u, lik)
    \/ OnTheEdge(lw, st.cfg.resample) /\ (Right(lw, t, u, lik) \/ Right(Zeros(Len(lw)), t, u, lik))

RungClauses(i, t, u, lw, lik) ==
    << <<"temperatures strictly increase", RLt(t, u)>>,
       <<"temperatures never exceed the maximum", RLe(u, Top)>>,
       IF Adaptive THEN <<"the next temperature keeps the requested fraction of the effective sample size, or is the maximum if that keeps more",
                          RLt(t, u) => AdaptiveRung(lw, t, u, lik)>>
       ELSE <<"the temperatures are those of the schedule", i <= Len(Schedule) /\ SameT(u, Schedule[i])>> >>
\* st.it: rungs climbed so far
StartClauses == << >>
ClimbClauses ==
    << <<"the run goes on only while the maximum temperature is not reached and iterations are left", st.i = 0 \/ (~Reached(st.t) /\ st.i - 1 < MaxIter)>> >>
    \o RungClauses(st.i + 1, st.t, e.t, st.lw, e.lik)
EndClauses ==
    << <<"the run ends when the maximum temperature is reached, the iterations are used up, or a tenth of the values are undefined",
         Reached(st.t) \/ st.i - 1 >= MaxIter \/ RLt("0.1", e.undefined)>>,
       <<"a prescribed ladder is climbed to its top", ~Adaptive /\ RLe(e.undefined, "0.1") => st.i = Len(Schedule)>>,
       <<"the scenario is left at the final temperature", SameT(e.scenario, st.t)>>,
       <<"every recorded ensemble has the requested number of particles", e.n = st.n>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Start" -> StartClauses
             [] e.ev = "Climb" -> ClimbClauses
             [] e.ev = "End" -> EndClauses

TraceInit == l = 1 /\ st = [i |-> 0] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Start" -> [cfg |-> e.cfg, i |-> 0, t |-> "0", lw |-> Zeros(e.n), n |-> e.n]
               [] e.ev = "Climb" -> [st EXCEPT !.i = st.i + 1, !.t = e.t, !.lw = e.lw]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
