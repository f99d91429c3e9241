----------------------------- MODULE AdaptTrace -----------------------------
(* Iterations of real adaptive chains, judged by Adapt's recursion.        *)
EXTENDS Adapt, TraceKit

VARIABLES l, st, bad
e == Trace[l]
Close(a, b) == RClose(a, b, "2e-4", "1e-6")
CloseV(a, b) == VClose(a, b, "5e-4", "1e-6")

StartClauses ==
    << <<"the first recorded parameter is the one supplied, or the default if none was", Close(e.p, IF e.supplied = "none" THEN e.default ELSE e.supplied)>> >>
    \o (IF Has(e, "step") THEN
         << <<"coordinate stepsizes start from the supplied stepsize or one", CloseV(e.step, [k \in 1..Len(e.step) |-> e.step0])>> >> ELSE <<>>)
StepClauses ==
    << <<"the tuned parameter follows the Robbins-Monro recursion up to the cut-off and is frozen afterwards",
         RIsFinite(e.p) /\ Close(e.p, Adapted(st.cfg, st.p, e.i, e.m))>>,
       <<"a parameter tuned on the log scale stays positive", st.cfg.log => RLt("0", e.p)>>,
       <<"after the cut-off the parameter does not change at all", Frozen(st.cfg, e.i) => e.p = st.p>>,
       <<"the parameter recorded with a state is in force for the next proposal", e.used = "none" \/ Close(e.used, st.p)>> >>
    \o (IF Has(e, "step") THEN
         << <<"coordinate stepsizes are 2.38 squared over the dimension times the running variance",
              CloseV(e.step, IF Frozen(st.cfg, e.i) THEN st.step
                             ELSE StepOf(NextVar(st.cfg, e.i, st.mean, st.var, e.x), Len(e.x)))>> >> ELSE <<>>)
TargetClauses ==
    << <<"the tuned metric approaches its target", RLe(RAbs(RSub(e.mean, e.target)), e.tol)>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Start" -> StartClauses
             [] e.ev = "Step" -> StepClauses
             [] e.ev = "Target" -> TargetClauses

\* running mean and variance continue from the specification's own values, the parameter from the recorded one
TraceInit == l = 1 /\ st = [p |-> "0"] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Start" -> IF Has(e, "step")
                    THEN [cfg |-> e.cfg, p |-> e.p, step |-> e.step, mean |-> e.x, var |-> VScale(RDiv(Len(e.x), RSq("2.38")), e.step)]
                    ELSE [cfg |-> e.cfg, p |-> e.p]
               [] e.ev = "Step" -> IF Has(e, "step")
                    THEN [st EXCEPT !.p = e.p, !.step = e.step,
                                    !.var = Forced(NextVar(st.cfg, e.i, st.mean, st.var, e.x)),
                                    !.mean = Forced(NextMean(st.cfg, e.i, st.mean, e.x))]
                    ELSE [st EXCEPT !.p = e.p]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
