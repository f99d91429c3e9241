----------------------------- MODULE SVGDTrace -----------------------------
(* Recorded Stein variational runs, judged by SVGD.                        *)
EXTENDS SVGD, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
Biggest(m) == VMaxR([i \in 1..Len(m) |-> VMaxR([k \in 1..Len(m[i]) |-> RAbs(m[i][k])])])
NearM(a, b, rt, at) == Len(a) = Len(b) /\ MClose(a, b, "0", RAdd(at, RMul(rt, Biggest(b))))
\* the kernel in force for the ensemble of a record
Kernel(cfg, xs) == IF cfg.adapt THEN Adapted(cfg.k, xs) ELSE cfg.k
StateClauses(cfg) ==
    << <<"recorded potentials belong to the recorded positions", VClose(e.pot, e.wantpot, "1e-4", "1e-4")>>,
       <<"recorded gradients belong to the recorded positions", NearM(e.gs, e.wantgs, "3e-4", "1e-4")>>,
       <<"the bandwidth adapts to the recorded ensemble and is recorded", cfg.adapt => e.h # "none" /\ RClose(e.h, MeanRule(e.xs), "1e-3", "1e-6")>> >>
StartClauses == <<<<"the ensemble starts where it was asked to, or from the prior",
                    IF e.given # <<>> THEN MClose(e.xs, e.given, "1e-6", "1e-7")
                    ELSE e.prior = <<>> \/ Len(e.xs) < 30 \/ GaussianResiduals(Forced([i \in 1..Len(e.xs) |-> VSub(e.xs[i], e.prior[1])]), MDiag(e.prior[2]))>> >> \o StateClauses(e.cfg)

\* the particles' moves from st to e
Flow == Forced(Phi(Kernel(st.cfg, st.xs), st.xs, st.gs))
G(flow) == Forced(MScale("-1", flow))
After(g) == Forced(NewState(st.cfg.o, st.s, g))
Full == LET g == G(Flow)  s == After(g) IN NearM(e.xs, Moved(st.cfg.o, s, g, st.xs, st.cfg.etas[st.i + 1], st.i + 1), "2e-4", "2e-4")
\* batches, gradient steps only: what each particle moved by, per unit of stepsize
Drawn == Forced(MScale(RDiv("1", st.cfg.etas[st.i + 1]), MSub(e.xs, st.xs)))
Batch(phi) ==
    LET k == Forced(Kernel(st.cfg, st.xs))
        n == Len(st.xs)
        ts == Forced([i \in 1..n |-> [j \in 1..n |-> Term(k, st.xs, st.gs, j, i)]])
        full == Forced([i \in 1..n |-> MeanOf(ts[i])])
        dev == [i \in 1..n |-> RSub(phi[i][1], full[i][1])]
        var == [i \in 1..n |-> RDiv(RDiv(VSumSq([j \in 1..n |-> RSub(ts[i][j][1], full[i][1])]), n), st.cfg.batch)]
    IN [ts |-> ts, dev |-> dev, var |-> var]
Slack(b) == RMul("2e-3", RAdd("1", VMaxR([i \in 1..Len(b.ts) |-> Biggest(b.ts[i])])))
\* <<j, whether move i is along term j>> for every term that stands apart from the others
Gap(u, v) == VMaxR([c \in 1..Len(u) |-> RAbs(RSub(u[c], v[c]))])
Apart(b, i, j) == \A k \in 1..Len(b.ts) : k = j \/ RLt(RMul("3", Slack(b)), Gap(b.ts[i][k], b.ts[i][j]))
Which(b, phi) ==
    LET n == Len(phi)
        Pair(i, j) == IF Apart(b, i, j) THEN << <<j, RLe(Gap(phi[i], b.ts[i][j]), Slack(b))>> >> ELSE <<>>
    IN Forced(FlattenSeq([i \in 1..n |-> FlattenSeq([j \in 1..n |-> Pair(i, j)])]))
OneOf(b, phi) == \A i \in 1..Len(phi) : \E j \in 1..Len(phi) : VClose(phi[i], b.ts[i][j], "0", Slack(b))
MoveClauses ==
    IF st.cfg.batch = 0
    THEN << <<"particles move by the optimiser along the kernelised gradient", Full>> >>
    ELSE LET phi == Drawn  b == Forced(Batch(phi))
         IN << <<"with batches of one particle every move is along one term", st.cfg.batch = 1 => OneOf(b, phi)>>,
               <<"batch moves average to the kernelised gradient", Within(VSum(b.dev), VSum(b.var), RMul(Len(phi), Slack(b)))>> >>
StepClauses == << <<"iterations continue only up to the limit", st.i < st.cfg.budget>> >> \o StateClauses(st.cfg) \o MoveClauses
EndClauses ==
    << <<"all iterations are made", st.i = st.cfg.budget>>,
       <<"every recorded ensemble has the requested number of particles", Len(st.xs) = e.n>>,
       IF st.cfg.batch = 0 THEN <<"batches are drawn only when asked for", TRUE>>
       ELSE <<"batch moves scatter as draws with replacement of the requested size",
              \* squared deviations against their expectation, errors estimated from the squares themselves
              LET q == Forced([i \in 1..Len(st.devs) |-> RSub(RDiv(RSq(st.devs[i]), st.vars[i]), "1")])
              IN Len(q) < 150 \/ SampleMean(q, "0")>>,
       <<"batches are drawn uniformly", st.cfg.batch = 1 => \A j \in 1..e.n :
              LET seen == SelectSeq(st.drawn, LAMBDA v : v[1] = j) IN Frequency(Len(SelectSeq(seen, LAMBDA v : v[2])), Len(seen), RDiv("1", e.n))>> >>
PermutedClauses == << <<"permuting the initial particles permutes the result", NearM([i \in 1..Len(e.b) |-> e.a[e.p[i]]], e.b, "2e-3", "1e-3")>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Start" -> StartClauses
             [] e.ev = "Step" -> StepClauses
             [] e.ev = "End" -> EndClauses
             [] e.ev = "Permuted" -> PermutedClauses
TraceInit == l = 1 /\ st = [i |-> 0] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Start" -> [cfg |-> e.cfg, i |-> 0, xs |-> e.xs, gs |-> e.gs, s |-> [a |-> Zero(e.xs), b |-> Zero(e.xs)], devs |-> <<>>, vars |-> <<>>, drawn |-> <<>>]
               [] e.ev = "Step" ->
                    LET b == IF st.cfg.batch = 0 THEN [dev |-> <<>>, var |-> <<>>] ELSE Forced(Batch(Drawn))
                        w == IF st.cfg.batch = 1 THEN Which(b, Drawn) ELSE <<>>
                    IN [st EXCEPT !.i = st.i + 1, !.xs = e.xs, !.gs = e.gs, !.s = IF st.cfg.batch = 0 THEN After(G(Flow)) ELSE st.s,
                                  !.drawn = st.drawn \o w, !.devs = st.devs \o b.dev, !.vars = st.vars \o b.var]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
