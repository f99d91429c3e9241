------------------------------ MODULE ABCTrace ------------------------------
(* Draws and moves of the real simulator-based samplers, judged by ABC.    *)
EXTENDS ABC, Acceptance, TraceKit

VARIABLES l, st, bad
e == Trace[l]
M == st.model
SameN(a, b) == a = b \/ RClose(a, b, "1e-4", "1e-5") \/ (RIsNaN(a) /\ RIsNaN(b))

\* what belongs to a recorded position: prior potential, and its simulated data's distance
PriorOf(x) == CASE M.kind = "linear" -> RDiv(RMul("0.5", VSumSq(VShift("-0.1", x))), RSq("1.3"))
                [] M.kind = "lattice" -> LET k == RFloor(RAdd(x[1], "0.5")) IN
                     IF k < 1 \/ k > Len(M.prior) \/ M.prior[k] = 0 THEN "Infinity" ELSE RNeg(RLog(M.prior[k]))
                [] M.kind = "bounded" -> IF \A i \in 1..Len(x) : RLe("-1", x[i]) /\ RLe(x[i], "1") THEN "0" ELSE "Infinity"
DistanceOf(y) == CASE M.kind = "lattice" -> RAdd(M.dist[RFloor(RAdd(y[1], "0.5"))], "0")
                   [] M.distance = "euclid" -> RSqrt(VSumSq(VSub(y, M.data)))
                   [] M.distance = "max" -> VMaxR([i \in 1..Len(y) |-> RAbs(RSub(y[i], M.data[i]))])
DataOf(x) == MVec(M.a, x)
Together(s) ==
    /\ SameN(s.prior, PriorOf(s.x))
    /\ SameN(s.distance, DistanceOf(s.y))
    /\ (M.deterministic => VClose(s.y, DataOf(s.x), "1e-3", "1e-3"))
    /\ (M.kind = "lattice" /\ RIsFinite(s.prior) => M.sim[RFloor(RAdd(s.x[1], "0.5"))][RFloor(RAdd(s.y[1], "0.5"))] > 0)

LogRatio(s) == IF M.proposal = "prior" THEN "0" ELSE RSub(s.importance, s.prior)
\* importance: potential of the proposal of the driver, given to the library as importance_potential
DrawsClauses ==
    << <<"as many draws as requested", Len(e.draws) = e.n>>,
       <<"position, prior potential, simulated data and distance belong together", \A i \in 1..Len(e.draws) : Together(e.draws[i])>>,
       <<"a draw has weight zero unless its distance is strictly below the threshold, and otherwise the prior over the proposal density",
         \A i \in 1..Len(e.draws) : LET d == e.draws[i] w == DrawLogWeight(d.distance, e.threshold, LogRatio(d))
                                    IN  IF REq(w, "-Infinity") THEN REq(d.lw, w) ELSE RClose(d.lw, w, "1e-4", "1e-4")>>,
       <<"a requested acceptance rate sets the threshold to that quantile of the distances",
         e.rate # "none" => RClose(e.threshold, Quantile([i \in 1..Len(e.draws) |-> e.draws[i].distance], e.rate), "1e-5", "1e-6")>>,
       <<"the threshold is the one requested", e.asked # "none" => RClose(e.threshold, e.asked, "1e-6", "0")>>,
       <<"draws come from the proposal", \A i \in 1..Len(e.draws) : M.proposal = "box" => \A k \in 1..Len(e.draws[i].x) : RLe("0.5", e.draws[i].x[k]) /\ RLe(e.draws[i].x[k], "1.5")>> >>
NormalsClauses ==
    << <<e.what, \A c \in 1..Len(e.z) : NormalSample(e.z[c])>>,
       <<"coordinates are independent", \A c \in 1..Len(e.z), d \in 1..Len(e.z) : c < d => NormIndep(e.z[c], e.z[d])>> >>
UniformClauses == << <<e.what, \A c \in 1..Len(e.u) : Uniform01(e.u[c])>> >>
PairsClauses == << <<e.what, \A c \in 1..Len(e.u), d \in 1..Len(e.v) : NormIndep(e.u[c], e.v[d])>> >>
FrequencyClauses == << <<e.what, Frequency(e.count, e.n, e.p)>> >>

SameS(a, b) == SameN(a.prior, b.prior) /\ SameN(a.distance, b.distance)
               /\ (\A i \in 1..Len(a.x) : SameN(a.x[i], b.x[i])) /\ (\A i \in 1..Len(a.y) : SameN(a.y[i], b.y[i]))
MoveClauses ==
    << <<"the move starts from the recorded state", SameS(e.prev, e.rej)>>,
       <<"position, prior potential, simulated data and distance belong together", Together(e.rej) /\ Together(e.prop) /\ Together(e.next)>>,
       <<"a move is accepted with probability min(1, prior ratio) if the new data are strictly within the threshold and never otherwise",
         RClose(e.alpha, ABCAlpha(e.rej.prior, e.prop.prior, e.prop.distance, e.threshold), "1e-3", "1e-5")>>,
       <<"the next state is the whole proposed state or the whole previous state", SameS(e.next, e.prop) \/ SameS(e.next, e.rej)>>,
       <<"an accepted state lies within the threshold and inside the prior",
         SameS(e.next, e.rej) \/ (WithinThreshold(e.next.distance, e.threshold) /\ RIsFinite(e.next.prior))>>,
       <<"the threshold in force is the one requested", e.asked = "none" \/ RClose(e.threshold, e.asked, "1e-6", "0")>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Model" -> << >>
             [] e.ev = "Draws" -> DrawsClauses
             [] e.ev = "Normals" -> NormalsClauses
             [] e.ev = "Uniforms" -> UniformClauses
             [] e.ev = "Pairs" -> PairsClauses
             [] e.ev = "Frequency" -> FrequencyClauses
             [] e.ev = "Move" -> MoveClauses
             [] e.ev = "Accepts" -> AcceptanceClauses(e)

TraceInit == l = 1 /\ st = [model |-> [kind |-> "none"]] /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = Keep(bad, Failing(l, e, Clauses))
             /\ st' = IF e.ev = "Model" THEN [model |-> e.model] ELSE st
TraceVerdict == Verdict(l, bad)
=============================================================================
