--------------------------- MODULE ScenarioTrace ---------------------------
EXTENDS Scenario, TraceKit

VARIABLES l, st, bad
e == Trace[l]
\* st is the configuration in force; an Op event replaces entries of it
C(a, b) == RClose(a, b, "1e-3", "2e-3")
CV(a, b) == Len(a) = Len(b) /\ VClose(a, b, "5e-3", "1e-2")
Tight(a, b) == RClose(a, b, "1e-5", "1e-5")
TightV(a, b) == VClose(a, b, "1e-5", "1e-5")

\* differences to a reference position: potentials are defined up to a constant, except where stated
EvalClauses ==
    LET c == st  x == e.x  r == e.ref
        dl == RSub(Lik(c, x), Lik(c, r))
        dp == RSub(Prior(c, x), Prior(c, r))
        gp == Forced(GradPrior(c, x))
        gl == Forced(GradLik(c, x))
    IN << <<"the likelihood potential is the one in force", C(RSub(e.lik, e.likref), dl)>>,
          <<"the prior potential is the one in force", C(RSub(e.prior, e.priorref), dp)>>,
          <<"the likelihood gradient is the gradient of the likelihood potential in force", CV(e.glik, gl)>>,
          <<"the prior gradient is the gradient of the prior potential in force", CV(e.gprior, gp)>>,
          <<"the gradient is the tempered sum at the temperature in force", CV(e.grad, VAdd(gp, VScale(c.t, gl)))>>,
          <<"the potential is the tempered sum at the temperature in force", C(RSub(e.pot, e.potref), RAdd(dp, RMul(c.t, dl)))>> >>
       \o (IF c.kind = "mixture" THEN
            << <<"the mixture density is normalised", C(e.lik, Lik(c, x)) /\ C(e.dens, RExp(RNeg(Lik(c, x))))>> >> ELSE <<>>)
       \o (IF Has(e, "covsqrt") THEN
            << <<"the derived covariance factors follow the covariance",
                 /\ MClose(MMul(e.covsqrt, MTr(e.covsqrt)), c.cov, "1e-3", "1e-3")
                 /\ MClose(MMul(e.precsqrt, MTr(e.precsqrt)), MInv(c.cov), "1e-2", "1e-2")
                 /\ RClose(RMul(e.precdet, MDet(c.cov)), "1", "1e-2", "0")>> >> ELSE <<>>)

\* relations that hold for every scenario, whatever its potentials are (also random ones, for the same random key)
RelationClauses ==
    << <<"potential = prior potential + temperature times likelihood potential", Tight(e.pot, RAdd(e.prior, RMul(e.t, e.lik)))>>,
       <<"gradient = prior gradient + temperature times likelihood gradient", TightV(e.grad, VAdd(e.gprior, VScale(e.t, e.glik)))>>,
       <<"combined functions return the potential and its gradient",
         /\ Tight(e.pair.pot, e.pot) /\ TightV(e.pair.grad, e.grad)
         /\ Tight(e.pair.prior, e.prior) /\ TightV(e.pair.gprior, e.gprior)
         /\ Tight(e.pair.lik, e.lik) /\ TightV(e.pair.glik, e.glik)>>,
       <<"tempered functions use the temperature they are given",
         /\ Tight(e.at.pot, RAdd(e.prior, RMul(e.at.t, e.lik)))
         /\ TightV(e.at.grad, VAdd(e.gprior, VScale(e.at.t, e.glik)))
         /\ Tight(e.at.pair.pot, e.at.pot) /\ TightV(e.at.pair.grad, e.at.grad)>>,
       <<"compiled evaluation agrees with direct evaluation", Tight(e.jit, e.pot)>> >>
VectorClauses ==
    << << e.how, Len(e.batch) = Len(e.single) /\ VClose(e.batch, e.single, "1e-4", "1e-4")>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Eval" -> EvalClauses
             [] e.ev = "Relation" -> RelationClauses
             [] e.ev = "Vector" -> VectorClauses
             [] OTHER -> <<>>

Assign(c, new) == [f \in DOMAIN c |-> IF f \in DOMAIN new THEN new[f] ELSE c[f]]
TraceInit == l = 1 /\ st = [kind |-> "none"] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "New" -> e.c
               [] e.ev = "Op" -> Assign(st, e.set)
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
