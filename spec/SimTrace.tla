------------------------------ MODULE SimTrace ------------------------------
(* What the real simulators returned, judged by Simulators.                *)
EXTENDS Simulators, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]

Independent(us, vs) == LET c(s) == [i \in 1..Len(s) |-> RSub(s[i], "0.5")] IN Within(VDot(c(us), c(vs)), RDiv(Len(us), "144"), "1")
UniformColumns(cols) == /\ \A i \in 1..Len(cols) : Uniform01(cols[i])
                        /\ \A i, j \in 1..Len(cols) : i < j => Independent(cols[i], cols[j])

(* Event logs: runs[r] has times and states after the start, done if nothing can happen any more *)
PathClauses ==
    LET n == Len(e.runs)
        X(r, i) == IF i = 0 THEN e.start ELSE e.runs[r].xs[i]
        T(r, i) == IF i = 0 THEN "0" ELSE e.runs[r].ts[i]
        steps == Forced([r \in 1..n |-> [i \in 1..Len(e.runs[r].xs) |->
                    LET rs == Forced(Reactions(e.kind, e.theta, X(r, i-1), e.pop)) tot == TotalRate(rs)
                    IN  [which |-> Which(rs, X(r, i)), first |-> RDiv(rs[1].rate, tot),
                         u |-> RExp(RNeg(RMul(RSub(T(r, i), T(r, i-1)), tot)))]]])
        all == Forced(FlattenSeq(steps))
        legal == \A j \in 1..Len(all) : all[j].which > 0
    IN << <<"individuals move one at a time between the compartments", legal>>,
          <<"event times increase", \A r \in 1..n : \A i \in 1..Len(e.runs[r].ts) : RLe(T(r, i-1), T(r, i))>>,
          <<"the trajectory continues until nobody is infected", \A r \in 1..n : Len(e.runs[r].xs) = e.limit \/ Ended(Reactions(e.kind, e.theta, X(r, Len(e.runs[r].xs)), e.pop))>>,
          <<"waiting times are exponential with the total rate", all = << >> \/ (Uniform01([j \in 1..Len(all) |-> all[j].u]) /\ (Len(all) < 3 \/ Independent([j \in 1..Len(all)-1 |-> all[j].u], [j \in 1..Len(all)-1 |-> all[j+1].u])))>>,
          <<"events occur in proportion to their rates", Events(Cardinality({j \in 1..Len(all) : all[j].which = 1}), [j \in 1..Len(all) |-> all[j].first])>>,
          <<"the event does not depend on the waiting time",
            LET d == [j \in 1..Len(all) |-> RMul(RSub(all[j].u, "0.5"), RSub(IF all[j].which = 1 THEN "1" ELSE "0", all[j].first))]
            IN  all = << >> \/ Within(VSum(d), RDiv(VSum([j \in 1..Len(all) |-> RMul(all[j].first, RSub("1", all[j].first))]), "12"), "3")>> >>

(* States at requested times: table[i] = [ys, c], the states at the times after the first, and how often *)
LawClauses ==
    LET T == Len(e.times)
        total == VSum([i \in 1..Len(e.table) |-> e.table[i].c])
        gap(t) == RSub(e.times[t + 1], e.times[t])
        law(t) == Law(e.kind, e.theta, e.pop, e.start, RSub(e.times[t + 1], e.times[1]), e.events)
        laws == Forced([t \in 1..T-1 |-> law(t)])
        Count(ok(_)) == VSum([i \in 1..Len(e.table) |-> IF ok(e.table[i].ys) THEN e.table[i].c ELSE 0])
        Matches(c, n, p, lost) == Within(RSub(c, RMul(n, p)), RMul(n, RMul(p, RSub("1", RMin("1", p)))), RAdd("6", RMul(n, lost)))
        Lost(w) == RMax("0", RSub("1", VSum(w.mass)))
        Keys(w) == IF e.prey THEN { w.states[i][1] : i \in 1..Len(w.states) } ELSE { w.states[i] : i \in 1..Len(w.states) }
        KeyOf(s) == IF e.prey THEN s[1] ELSE s
        P(w, key) == LET Hit(s) == KeyOf(s) = key IN MassOf(w, Hit)
        Marginal(t) == \A key \in Keys(laws[t]) : LET Hit(ys) == ys[t] = key IN Matches(Count(Hit), total, P(laws[t], key), Lost(laws[t]))
        Known(t) == LET Hit(ys) == ys[t] \in Keys(laws[t]) IN Matches(Count(Hit), total, VSum(laws[t].mass), "0")
        Starts(t) == { s \in { e.table[i].ys[t] : i \in 1..Len(e.table) } : LET Hit(ys) == ys[t] = s IN RLt("200", Count(Hit)) }
        Conditional(t) == \A s \in Starts(t) :
            LET w == Forced(Law(e.kind, e.theta, e.pop, s, gap(t + 1), e.events))
                From(ys) == ys[t] = s
                c == Count(From)
            IN  \A k \in Keys(w) : LET Hit(ys) == ys[t] = s /\ ys[t+1] = k IN Matches(Count(Hit), c, P(w, k), Lost(w))
    IN << <<"a state is reported for every requested time", \A i \in 1..Len(e.table) : Len(e.table[i].ys) = T - 1>>,
          <<"states at the requested times are ones the process reaches", \A t \in 1..T-1 : Known(t)>>,
          <<"states at the requested times have the law of the process", \A t \in 1..T-1 : Marginal(t)>>,
          <<"later states depend on earlier ones as in the process", e.prey \/ \A t \in 1..T-2 : Conditional(t)>> >>

(* Recursion *)
RickerPathClauses ==
    LET S == Len(e.paths[1]) - 1  n == Len(e.paths)
        res == Forced(FlattenSeq([r \in 1..n |-> [i \in 1..S |-> RickerNoise(e.r, e.paths[r][i], e.paths[r][i+1])]]))
        z == Forced([j \in 1..Len(res) |-> RDiv(res[j], e.sd)])
    IN << <<"the path starts in the initial population and has all steps", \A r \in 1..n : Len(e.paths[r]) = e.steps + 1 /\ RClose(e.paths[r][1], e.start, "1e-6", "0")>>,
          <<"the population follows the recursion",
            IF REq(e.sd, "0") THEN \A j \in 1..Len(res) : RClose(res[j], "0", "0", "2e-4")
            ELSE NormalSample(z)>> >>
RECURSIVE RickerAt(_, _, _)
RickerAt(r, nn, k) == IF k = 0 THEN nn ELSE RickerAt(r, Forced(RickerMean(r, nn)), k - 1)
CountClauses ==   \* ys[i][k]: k-th draw of the observation at index inds[i]; without noise
    LET I == Len(e.inds)
        lam == Forced([i \in 1..I |-> RMul(e.phi, RickerAt(e.r, e.start, e.inds[i]))])
        n == Len(e.ys[1])
        Var(y, m) == VSumSq(VShift(RNeg(m), y))
    IN << <<"observations are counts", \A i \in 1..I : \A k \in 1..n : RLe("0", e.ys[i][k]) /\ REq(RRound(e.ys[i][k], 0), e.ys[i][k])>>,
          <<"observations have the mean of the observed population", \A i \in 1..I : Within(RSub(VSum(e.ys[i]), RMul(n, lam[i])), RMul(n, lam[i]), RMul("1e-3", RMul(n, lam[i])))>>,
          <<"observations have the spread of a Poisson count",
            \A i \in 1..I : Within(RSub(Var(e.ys[i], lam[i]), RMul(n, lam[i])), RMul(n, RAdd(lam[i], RMul("2", RSq(lam[i])))), RMul("2e-3", RMul(n, lam[i])))>>,
          <<"observations are sometimes zero", \A i \in 1..I : Frequency(Cardinality({k \in 1..n : REq(e.ys[i][k], "0")}), n, RExp(RNeg(lam[i])))>>,
          <<"observations are independent", \A i, j \in 1..I : i < j => Within(VDot(VShift(RNeg(lam[i]), e.ys[i]), VShift(RNeg(lam[j]), e.ys[j])), RMul(n, RMul(lam[i], lam[j])), RMul("3e-3", RMul(n, RMul(lam[i], lam[j]))))>> >>

(* Quantile functions *)
GKClauses ==
    LET Z(p) == Forced([k \in 1..Len(e.ys) |-> GKInverse(p, e.ys[k])])
        good == NormalSample(Z(e.p))
        known == e.only /\ NormalSample(Z([e.p EXCEPT !.k = e.p.c]))
    IN << <<"the requested number of data is simulated", Len(e.ys) = e.n>>,
          <<"data are the stated transformation of normal variables, or that with the exponent replaced", good \/ known>>,
          <<"data are the stated transformation of normal variables", good>> >>

(* Priors *)
PriorClauses ==
    LET d == Len(e.draws[1])  n == Len(e.draws)
        U(x, i) == CASE e.kind = "exp" -> RExp(RNeg(RMul(e.rates[i], x)))
                     [] e.kind = "logexp" -> RExp(RNeg(RMul(e.rates[i], RExp(x))))
                     [] e.kind = "box" -> RDiv(RSub(x, e.lo[i]), RSub(e.hi[i], e.lo[i]))
                     [] OTHER -> RPhi(x)
        Pot(x) == CASE e.kind = "exp" -> ExpPrior(e.rates, x) [] e.kind = "logexp" -> LogExpPrior(e.rates, x)
                    [] e.kind = "box" -> (IF InBox(e.lo, e.hi, x) THEN "0" ELSE "Infinity") [] OTHER -> RDiv(VSumSq(x), "2")
        pots == Forced([k \in 1..Len(e.xs) |-> Pot(e.xs[k])])
        cols == Forced([i \in 1..d |-> [k \in 1..n |-> U(e.draws[k][i], i)]])
    IN << <<"prior draws have the prior distribution", d = e.dim /\ UniformColumns(cols)>>,
          <<"prior potentials are those of the prior",
            \A k \in 1..Len(e.xs) : IF RIsFinite(pots[k]) THEN RClose(RSub(e.pots[k], e.pots[1]), RSub(pots[k], pots[1]), "1e-4", "1e-3") ELSE REq(e.pots[k], pots[k])>> >>
TransformClauses ==
    << <<"constrained positions are the stated function of the unconstrained ones",
         \A k \in 1..Len(e.xs) : VClose(e.cs[k], IF e.kind = "box" THEN BoxPoint(e.lo, e.hi, e.xs[k]) ELSE VExp(e.xs[k]), "1e-4", "1e-5")>>,
       <<"unconstraining undoes constraining", \A k \in 1..Len(e.xs) : VClose(e.back[k], e.xs[k], "1e-3", "2e-3")>> >>

(* Linear Gaussian inverse problem *)
Gauss(x, m, c) == LET v == VSub(x, m) IN RAdd(RDiv(Quad(v, MInv(c), v), "2"), RDiv(RLog(MDet(c)), "2"))
LinearClauses ==
    LET mu(x) == MVec(e.h, x)
        Same(as, bs) == \A k \in 1..Len(as) : RClose(RSub(as[k], as[1]), RSub(bs[k], bs[1]), "1e-3", "2e-3")
        res == Forced([k \in 1..Len(e.sims) |-> VSub(e.sims[k], mu(e.at))])
        dr == Forced([k \in 1..Len(e.draws) |-> VSub(e.draws[k], e.mean)])
    IN << <<"prior draws have the prior distribution", GaussianResiduals(dr, e.cov)>>,
          <<"prior potentials are those of the prior", Same(e.prior, Forced([k \in 1..Len(e.xs) |-> Gauss(e.xs[k], e.mean, e.cov)]))>>,
          <<"data are simulated from the likelihood", GaussianResiduals(res, e.r)>>,
          <<"likelihood potentials are those of the data", Same(e.lik, Forced([k \in 1..Len(e.xs) |-> Gauss(e.data, mu(e.xs[k]), e.r)]))>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Path" -> PathClauses
             [] e.ev = "Law" -> LawClauses
             [] e.ev = "Ricker" -> RickerPathClauses
             [] e.ev = "Counts" -> CountClauses
             [] e.ev = "GK" -> GKClauses
             [] e.ev = "Prior" -> PriorClauses
             [] e.ev = "Transform" -> TransformClauses
             [] e.ev = "Linear" -> LinearClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Keep(bad, Failing(l, e, Clauses)) /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
