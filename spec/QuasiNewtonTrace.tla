-------------------------- MODULE QuasiNewtonTrace --------------------------
(* Factors returned by the real code and chains of the real quasi-Newton   *)
(* sampler, judged by QuasiNewton.                                         *)
EXTENDS QuasiNewton, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
Biggest(m) == VMaxR([i \in 1..Len(m) |-> VMaxR([k \in 1..Len(m[i]) |-> RAbs(m[i][k])])])
NearM(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \A k \in 1..Len(a[i]) : ~RIsNaN(a[i][k]) /\ RLe(RAbs(RSub(a[i][k], b[i][k])), RAdd("1e-5", RMul(t, Biggest(b))))
NearV(a, b, t) == NearM(<<a>>, <<b>>, t)
Inverted(d) == [i \in 1..Len(d) |-> RDiv("1", d[i])]
\* rounding grows with the condition of the matrices
Condition(w) == RMul(Biggest(w.b), Biggest(w.h))
Loose(w) == RMin("0.05", RMax("1e-3", RMul("2e-6", Condition(w))))

FactorClauses(w, d, ps, qs, us, ts) ==
    LET s == FactorOf(ps, qs, Inverted(d))  c == FactorOf(us, ts, d)
        h == Squared(s)  b == Squared(c)
    IN << <<"the Hessian factor is the product of the stated updates", NearM(b, w.b, Loose(w))>>,
          <<"the inverse factor is the product of the stated updates", NearM(h, w.h, Loose(w))>>,
          <<"the factors for the Hessian and for its inverse are inverses", NearM(MMul(b, h), MId(Len(d)), RMax("5e-3", RMul("2e-6", Condition(w))))>>,
          <<"the latest accepted gradient difference is mapped to the position difference",
            (w.last > 0) => NearV(MVec(h, w.ys[w.last]), w.ss[w.last], RMul("5", Loose(w)))>>,
          <<"the matrices are positive definite", ~RIsNaN(MDet(b)) /\ RLt("0", MDet(b)) /\ \A i \in 1..Len(d) : RLt("0", b[i][i])>> >>
HistoryClauses ==
    LET w == Forced(Matrices(e.vals, e.grads, e.d, e.r, e.used))
        s == FactorOf(e.ps, e.qs, Inverted(e.d))  c == FactorOf(e.us, e.ts, e.d)
        P(a, z) == MVec(a, z)
    IN FactorClauses(w, e.d, e.ps, e.qs, e.us, e.ts)
       \o << <<"products with the factor agree with the factor", \A k \in 1..Len(e.zs) : NearV(e.sz[k], P(s, e.zs[k]), "2e-3") /\ NearV(e.cz[k], P(c, e.zs[k]), "2e-3")>>,
             <<"products with the transpose agree with the factor", \A k \in 1..Len(e.zs) : NearV(e.stz[k], P(MTr(s), e.zs[k]), "2e-3") /\ NearV(e.ctz[k], P(MTr(c), e.zs[k]), "2e-3")>>,
             <<"determinants agree with the factor", RClose(e.sdet, MDet(s), "1e-2", "1e-6") /\ RClose(e.cdet, MDet(c), "1e-2", "1e-6")>>,
             <<"log determinants agree with the factor", e.slog = "none" \/ (RClose(e.slog, RLog(RAbs(MDet(s))), "1e-2", "1e-2") /\ RClose(e.clog, RLog(RAbs(MDet(c))), "1e-2", "1e-2"))>> >>

(* Chains.  st.past: the recorded positions so far *)
Filled == LET n == Len(st.past) IN IF n > st.cfg.m THEN SubSeq(st.past, n - st.cfg.m + 1, n) ELSE st.past
Pad == st.cfg.m - Len(Filled)
Tail_(s) == SubSeq(s, Pad + 1, Len(s))
RECURSIVE Insert(_, _)
Insert(sorted, p) == IF sorted = <<>> THEN <<p>> ELSE IF RLt(p[1], sorted[1][1]) THEN <<p>> \o sorted ELSE <<sorted[1]>> \o Insert(Tail(sorted), p)
Sorted(ps) == FoldLeft(Insert, <<>>, ps)
Ordered == IF ~st.cfg.sort THEN Filled
           ELSE LET q == Sorted([i \in 1..Len(Filled) |-> <<Pot(st.model, Filled[i]), Filled[i]>>]) IN [i \in 1..Len(q) |-> q[i][2]]
W == LET v == Forced(Ordered)
     IN Forced(Matrices(v, [i \in 1..Len(v) |-> Grad(st.model, v[i])], st.cfg.d, st.cfg.r, [i \in 1..Len(v) |-> TRUE]))
IterClauses ==
    LET w == W
        inv == Squared(FactorOf(e.ps, e.qs, Inverted(st.cfg.d)))
        end == Leap(st.model, e.h, inv, e.rejx, e.rejp, st.cfg.steps)
        before == Energy(st.model, inv, e.rejx, e.rejp)
        after == Energy(st.model, inv, e.propx, e.propp)
        far == \E i \in 1..Len(e.propx) : RLt(st.cfg.maxval, RAbs(e.propx[i])) \/ RLt(st.cfg.maxval, RAbs(e.propp[i]))
        alpha == IF far THEN "0" ELSE RMin("1", RExp(RSub(before, after)))
        V(a, b) == VClose(a, b, "2e-4", "1e-4")
    IN << <<"the memory holds the latest states of the chain itself", NearM(Tail_(e.values), Filled, "1e-6")>>,
          <<"the remembered gradients are those at the remembered states",
             NearM(Tail_(e.grads), [i \in 1..Len(Filled) |-> Grad(st.model, Filled[i])], "2e-3")>> >>
       \o FactorClauses(w, st.cfg.d, e.ps, e.qs, e.us, e.ts)
       \o << <<"the proposal is the end point of leapfrog steps with the mass matrix of the memory",
                far \/ (NearV(e.propx, end[1], "5e-3") /\ NearV(VNeg(e.propp), end[2], "1e-2"))>>,
             <<"acceptance probabilities compare energies with the mass matrix of the memory",
                RLe(RAbs(RSub(e.alpha, alpha)), RAdd("2e-3", RMul("5e-5", RMin("1e4", RAdd(RAbs(before), RAbs(after))))))>>,
             <<"the recorded state is the proposed one or, on rejection, the one before with refreshed momentum",
                (V(e.nextx, e.propx) /\ V(e.nextp, e.propp)) \/ (V(e.nextx, e.rejx) /\ V(e.nextp, e.rejp))>>,
             <<"refreshing momenta leaves the position alone", V(e.prevx, e.rejx)>>,
             <<"without friction the momentum is reversed by a rejection and kept by an acceptance", REq(st.cfg.friction, "0") => V(e.rejp, VNeg(e.prevp))>> >>
\* innovation of the current record: S'(rejp + decay prevp) / sqrt(1 - decay^2)
Decay(friction, h) == RExp(RNeg(RMul(friction, h)))
Innovation ==
    LET a == Decay(st.cfg.friction, e.h)  s == FactorOf(e.ps, e.qs, Inverted(st.cfg.d))
        v == VAdd(e.rejp, IF REq(a, "0") THEN [i \in 1..Len(e.rejp) |-> "0"] ELSE VScale(a, e.prevp))
    IN Forced(VScale(RDiv("1", RSqrt(RSub("1", RSq(a)))), MVec(MTr(s), v)))
White == LET s == FactorOf(e.ps, e.qs, Inverted(st.cfg.d)) IN Forced(MVec(MTr(s), e.prevp))
Columns(m) == Forced([c \in 1..Len(m[1]) |-> Forced([i \in 1..Len(m) |-> m[i][c]])])
EndClauses ==
    IF Len(st.z) < 200 THEN <<>>
    ELSE LET z == Columns(st.z)  q == Columns(st.q)  D == 1..Len(z)
    IN << <<"momentum innovations have the mass matrix of the memory as covariance", \A c \in D : NormalSample(z[c])>>,
          <<"momentum innovations have unit size in the metric of the memory", NormSquare(FlattenSeq(z))>>,
          <<"momentum innovations of different coordinates are independent", \A c, k \in D : c < k => NormIndep(z[c], z[k])>>,
          <<"momentum innovations are independent of the previous momentum", \A c \in D : Within(VDot(z[c], q[c]), VSumSq(q[c]), "6")>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "History" -> HistoryClauses
             [] e.ev = "Chain" -> <<>>
             [] e.ev = "Iter" -> IterClauses
             [] e.ev = "End" -> EndClauses
TraceInit == l = 1 /\ st = [i |-> 0] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Chain" -> [cfg |-> e.cfg, model |-> e.model, past |-> <<e.x0>>, z |-> <<>>, q |-> <<>>]
               [] e.ev = "Iter" -> [st EXCEPT !.past = SubSeq(Append(st.past, e.nextx), IF Len(st.past) > st.cfg.m + 2 THEN 2 ELSE 1, Len(st.past) + 1),
                                              !.z = IF REq(st.cfg.friction, "0") THEN <<>> ELSE Append(st.z, Innovation),
                                              !.q = IF REq(st.cfg.friction, "0") THEN <<>> ELSE Append(st.q, White)]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
