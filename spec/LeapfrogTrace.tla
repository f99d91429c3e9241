--------------------------- MODULE LeapfrogTrace ---------------------------
EXTENDS Leapfrog, TraceKit, Stats

VARIABLES l, st, bad
e == Trace[l]
V(a, b) == VClose(a, b, "2e-4", "1e-4")

\* gradients: from the model where there is one, otherwise as evaluated by the scenario at the recorded positions
G(k) == IF Has(e, "model") THEN Grad(e.model, e.x[k]) ELSE e.grads[k]
LeapfrogClauses ==
    LET n == e.steps
    IN << <<"the integrator returns the start and every intermediate point", Len(e.x) = n + 1 /\ Len(e.p) = 2 * n + 1>>,
          <<"the integrator starts at the given position and momentum", Len(e.p) > 0 /\ V(e.x[1], e.x0) /\ V(e.p[1], e.p0)>> >>
       \o (IF Len(e.x) = n + 1 /\ Len(e.p) = 2 * n + 1 THEN
       << <<"momenta move half a step along the tempered gradient",
            \A k \in 1..n : V(e.p[2*k], HalfKick(G(k), e.h, e.p[2*k-1])) /\ V(e.p[2*k+1], HalfKick(G(k+1), e.h, e.p[2*k]))>>,
          <<"positions move a full step along the momenta", \A k \in 1..n : V(e.x[k+1], Drift(e.h, e.x[k], e.p[2*k]))>>,
          <<"the recorded gradients and potentials belong to the recorded positions",
             \A k \in 1..n+1 : VClose(e.g[k], G(k), "1e-3", "1e-3") /\ RClose(e.u[k], e.upot[k], "1e-3", "1e-3")>>,
          <<"negated momenta retrace the path", V(e.back, e.x0) /\ V(VNeg(e.backp), e.p0)>> >> ELSE <<>>)

ProposalClauses ==
    LET s == Leap(e.model, e.h, e.rejx, e.rejp, e.steps)
    IN << <<"the proposal is the end point of the requested leapfrog steps with reversed momentum",
            VClose(e.propx, s[1], "2e-3", "1e-3") /\ VClose(VNeg(e.propp), s[2], "2e-3", "1e-3")>>,
          <<"refreshing momenta leaves the position alone", V(e.prevx, e.rejx)>>,
          <<"the recorded momentum is the proposed one or, on rejection, the refreshed one",
            (V(e.nextx, e.propx) /\ V(e.nextp, e.propp)) \/ (V(e.nextx, e.rejx) /\ V(e.nextp, e.rejp))>>,
          <<"without friction the momentum is reversed by a rejection and kept by an acceptance",
            REq(e.friction, "0") => V(e.rejp, VNeg(e.prevp))>> >>

\* z: (refreshed + decay * previous) / sqrt(1 - decay^2), per coordinate
RefreshClauses ==
    LET a == Decay(e.friction, e.h)
        s == RSqrt(RSub("1", RSq(a)))
        Z(c) == [i \in 1..Len(e.rej[c]) |-> RDiv(RAdd(e.rej[c][i], IF REq(a, "0") THEN "0" ELSE RMul(a, e.prev[c][i])), s)]
        D == 1..Len(e.rej)
        z == Forced([c \in D |-> Forced(Z(c))])
    IN << <<"momenta are refreshed by the Ornstein-Uhlenbeck transition: normal innovations", \A c \in D : NormalSample(z[c])>>,
          <<"momentum innovations are independent of the previous momentum", \A c \in D : Within(VDot(z[c], e.prev[c]), VSumSq(e.prev[c]), "6")>>,
          <<"momentum innovations of different coordinates are independent", \A c, d \in D : c < d => NormIndep(z[c], z[d])>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Leapfrog" -> LeapfrogClauses
             [] e.ev = "Proposal" -> ProposalClauses
             [] e.ev = "Refresh" -> RefreshClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = Keep(bad, Failing(l, e, Clauses))
             /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
