----------------------------- MODULE ABCSMCTrace -----------------------------
(* Every recorded ensemble of real simulator-based runs, judged by ABCSMC. *)
(* Particles carry an identity, count their moves and remember the last    *)
(* proposal made for them and the parameters it was made with.             *)
EXTENDS ABCSMC, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
N == Len(st.ps)
Config == st.cfg
Row(p) == <<p.tag, p.x, p.y, p.distance, p.prior, p.count>>
SameState(a, b) == a.x = b.x /\ a.y = b.y /\ a.distance = b.distance /\ a.prior = b.prior

Distances(ps) == [k \in 1..Len(ps) |-> ps[k].distance]
Lws(ps) == [k \in 1..Len(ps) |-> ps[k].lw]
Living(ps) == LivingIndices(Lws(ps))

PriorOf(x) == CASE Config.model.kind = "linear" -> RDiv(RMul("0.5", VSumSq(VShift("-0.1", x))), RSq("1.3"))
                [] Config.model.kind = "lattice" -> LET k == RFloor(RAdd(x[1], "0.5")) IN
                     IF k < 1 \/ k > 3 \/ Config.model.prior[k] = 0 THEN "Infinity" ELSE RNeg(RLog(Config.model.prior[k]))
                [] Config.model.kind = "bounded" -> IF \A i \in 1..Len(x) : RLe("-1", x[i]) /\ RLe(x[i], "1") THEN "0" ELSE "Infinity"
DistanceOf(y) == IF Config.model.kind = "lattice" THEN RAdd(Config.model.dist[RFloor(RAdd(y[1], "0.5"))], "0")
                 ELSE RSqrt(VSumSq(VSub(y, Config.model.data)))
Same(a, b) == a = b \/ RClose(a, b, "1e-4", "1e-5")
Together(s) == Same(s.prior, PriorOf(s.x)) /\ Same(s.distance, DistanceOf(s.y))

NextThreshold(i, ess) ==
    IF Config.adaptive THEN RClose(e.thr, Quantile(Distances(e.ps), RMul(Config.retain, RDiv(ess, Len(e.ps)))), "1e-4", "1e-5")
    ELSE RClose(e.thr, Config.schedule[IF i + 1 > Len(Config.schedule) THEN Len(Config.schedule) ELSE i + 1], "1e-6", "0")

EnsembleClauses ==
    << <<"a particle has weight zero exactly when its distance exceeds the threshold",
         \A k \in 1..Len(e.ps) : REq(e.ps[k].lw, IF Dead(e.ps[k].distance, e.thr) THEN "-Infinity" ELSE "0")>>,
       <<"the effective sample size is the number of living particles", Living(e.ps) # {} => RClose(e.ess, Cardinality(Living(e.ps)), "1e-4", "1e-3")>>,
       <<"position, prior potential, simulated data and distance belong together", \A k \in 1..Len(e.ps) : Together(e.ps[k])>> >>
StartClauses ==
    EnsembleClauses \o
    << <<"the thresholds are the schedule, or the requested quantile of the current distances", NextThreshold(0, Len(e.ps))>>,
       <<"the initial particles are those supplied", \A k \in 1..Len(e.ps) : e.ps[k].tag = k - 1 /\ e.ps[k].count = 0>> >>

Due == RLt(st.alive, RMul(Config.resample, N))
\* a tie may fall on either side only by rounding of the effective sample size
Edge == RLe(RAbs(RSub(st.alive, RMul(Config.resample, N))), "0.001") /\ ~REq(st.ess, st.alive)
Slack(rate) == IF REq(rate, "0") \/ REq(rate, "1") THEN "0" ELSE "1e-5"
LivingRows == { <<st.ps[k].tag, st.ps[k].count + Config.moves>> : k \in Living(st.ps) }
DeadStay == \A k \in 1..N : k \in Living(st.ps) \/ Row(e.ps[k]) = Row(st.ps[k])
LivingMove == \A k \in Living(st.ps) : e.ps[k].tag = st.ps[k].tag /\ e.ps[k].count = st.ps[k].count + Config.moves
Kept == (~Due \/ Edge \/ st.alive = 0) /\ DeadStay /\ LivingMove
Renewed == (Due \/ Edge) /\ LET rows == Forced(LivingRows) IN \A k \in 1..N : <<e.ps[k].tag, e.ps[k].count>> \in rows

Alphas(ps, s) == LET q == SelectSeq([k \in 1..Len(ps) |-> <<ps[k].alpha, k \in s>>], LAMBDA t : t[2]) IN [k \in 1..Len(q) |-> q[k][1]]
TagShare(ps, s) == LET q == SelectSeq([k \in 1..Len(ps) |-> <<RDiv(ps[k].tag, Len(ps)), k \in s>>], LAMBDA t : t[2]) IN [k \in 1..Len(q) |-> q[k][1]]
Uniformly == LET b == TagShare(st.ps, Living(st.ps))  a == TagShare(e.ps, 1..N)  mu == VMean(b)
             IN  Within(RSub(VMean(a), mu), RDiv(VMean([k \in 1..Len(b) |-> RSq(RSub(b[k], mu))]), N), "1e-6")
EarlierRows == { <<st.ps[k].x, st.ps[k].y, st.ps[k].distance, st.ps[k].prior>> : k \in Living(st.ps) }

Moved == IF Kept THEN Living(st.ps) ELSE 1..N
MoveOK(p) ==
    /\ SameState(p, p.prop) \/ SameState(p, p.rej)
    /\ Together(p.prop)
    /\ RClose(p.propalpha, ABCAlpha(p.rej.prior, p.prop.prior, p.prop.distance, st.thr), "1e-3", "1e-5")
    /\ (RLe(p.propalpha, "0") => SameState(p, p.rej)) /\ (RLe("1", p.propalpha) => SameState(p, p.prop))
StepClauses ==
    EnsembleClauses \o
    << <<"the run goes on only while enough moves are accepted and iterations are left",
         st.i < Config.maxiter /\ ~RLe(RAdd(st.rate, Slack(st.rate)), Config.termination)>>,
       <<"the ensemble is renewed from living particles exactly when fewer than the requested fraction are alive; dead particles stay, living ones make the requested moves",
         Kept \/ Renewed>>,
       <<"the thresholds are the schedule, or the requested quantile of the current distances",
         (Kept /\ NextThreshold(e.i, st.alive)) \/ (~Kept /\ NextThreshold(e.i, N)) \/ (Renewed /\ NextThreshold(e.i, N))>>,
       <<"moves use the current threshold", \A k \in Moved : RClose(e.ps[k].seen, st.thr, "1e-6", "0")>>,
       <<"living particles move by the Markov rule at the current threshold", \A k \in Moved : MoveOK(e.ps[k])>>,
       <<"moves start from living particles", Config.moves = 1 => LET rows == Forced(EarlierRows)
                                              IN \A k \in Moved : <<e.ps[k].rej.x, e.ps[k].rej.y, e.ps[k].rej.distance, e.ps[k].rej.prior>> \in rows>>,
       <<"with a single move the recorded acceptance rate is that of the move", Config.moves = 1 => \A k \in Moved : RClose(e.ps[k].alpha, e.ps[k].propalpha, "1e-5", "1e-6")>>,
       <<"the recorded acceptance rate is the mean over the moves made",
         Kept => \A k \in Moved : RClose(RMul(Config.moves, e.ps[k].alpha), RSub(e.ps[k].total, st.ps[k].total), "1e-3", "1e-3")>>,
       <<"no living particle is left outside the threshold it moved under", \A k \in Moved : RLe(e.ps[k].distance, st.thr)>> >>
    \o (IF Kept THEN << >> ELSE << <<"living particles are copied with equal probability", Uniformly>> >>)
    \o (IF Config.default THEN
        << <<"default moves use the ensemble variances times 2.38 squared over the dimension",
             \A k \in Moved : VClose(e.ps[k].used, st.steps, "1e-3", "1e-6")>> >> ELSE << >>)
EndClauses ==
    << <<"the run ends when hardly any move is accepted or the iterations are used up",
         st.i >= Config.maxiter \/ RLe(st.rate, RAdd(Config.termination, Slack(st.rate)))>>,
       <<"every recorded ensemble has the requested number of particles", N = e.n>> >>
MovesClauses ==
    << <<"moves are accepted as often as their probabilities say", Events(e.accepted, e.alphas)>>,
       <<"random-walk steps are independent centred normals of the stepsize in force", Len(e.z[1]) > 30 => \A c \in 1..Len(e.z) : NormalSample(e.z[c])>>,
       <<"data are simulated afresh from their position", Len(e.noise) > 0 /\ Len(e.noise[1]) > 30 => \A c \in 1..Len(e.noise) : NormalSample(e.noise[c])>>,
       <<"simulation noise is independent of the move", \A c \in 1..Len(e.noise), d \in 1..Len(e.z) : NormIndep(e.noise[c], e.z[d])>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Config" -> << >>
             [] e.ev = "Start" -> StartClauses
             [] e.ev = "Step" -> StepClauses
             [] e.ev = "End" -> EndClauses
             [] e.ev = "Moves" -> MovesClauses

Column(ps, c) == [k \in 1..Len(ps) |-> ps[k].x[c]]
Variance(xs) == LET m == VMean(xs) IN RDiv(VSumSq(VShift(RNeg(m), xs)), Len(xs) - 1)
StepsFor(ps) == [c \in 1..Len(ps[1].x) |-> RDiv(RMul(Variance(Column(ps, c)), RSq("2.38")), Len(ps[1].x))]
TraceInit == l = 1 /\ st = [i |-> 0] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Config" -> [cfg |-> e.cfg]
               [] e.ev = "Start" -> [cfg |-> st.cfg, i |-> 0, ps |-> e.ps, thr |-> e.thr, ess |-> e.ess, alive |-> Cardinality(Living(e.ps)), rate |-> "1",
                                     steps |-> Forced(IF st.cfg.default THEN StepsFor(e.ps) ELSE << >>)]
               [] e.ev = "Step" -> [st EXCEPT !.i = st.i + 1, !.ps = e.ps, !.thr = e.thr, !.ess = e.ess, !.alive = Cardinality(Living(e.ps)),
                                              !.rate = Forced(VMean(Alphas(e.ps, Moved))),
                                              !.steps = Forced(IF st.cfg.default THEN StepsFor(e.ps) ELSE << >>)]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
