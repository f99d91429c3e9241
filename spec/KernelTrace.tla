----------------------------- MODULE KernelTrace -----------------------------
(* What the real kernels, bandwidth rules and discrepancies returned,      *)
(* judged by Kernels.                                                      *)
EXTENDS Kernels, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]

\* tolerance relative to the size of the largest entry
VNear(a, b, t) == LET s == VMaxR([i \in 1..Len(b) |-> RAbs(b[i])]) IN
    Len(a) = Len(b) /\ \A i \in 1..Len(b) : ~RIsNaN(a[i]) /\ RLe(RAbs(RSub(a[i], b[i])), RAdd("1e-6", RMul(t, s)))
PointClauses ==
    LET n == Len(e.xs)
    IN << <<"kernel values equal the formula", \A k \in 1..n : RClose(e.val[k], K(e.k, e.xs[k], e.ys[k]), "2e-4", "1e-6")>>,
          <<"kernels are symmetric", \A k \in 1..n : RClose(e.val[k], e.swapped[k], "1e-5", "1e-7")>>,
          <<"derivatives in the first argument are those of the formula", \A k \in 1..n : VNear(e.gx[k], GradX(e.k, e.xs[k], e.ys[k]), "5e-4")>>,
          <<"derivatives in the second argument are those of the formula", \A k \in 1..n : VNear(e.gy[k], GradY(e.k, e.xs[k], e.ys[k]), "5e-4")>>,
          <<"mixed derivatives are those of the formula", \A k \in 1..n : VNear(e.gxy[k], DiagGradXY(e.k, e.xs[k], e.ys[k]), "1e-3")>>,
          <<"parameters of a kernel change only when they are set", e.kept>> >>
BatchClauses == << <<"kernel values equal the formula", Len(e.val) = Len(e.xs) /\ \A k \in 1..Len(e.xs) : RClose(e.val[k], K(e.k, e.xs[k], e.ys[k]), "2e-4", "1e-6")>> >>
RuleClauses ==
    << <<"the mean bandwidth equals its definition", RClose(e.mean, MeanRule(e.xs), "1e-4", "1e-6")>>,
       <<"the median bandwidth equals its definition", RClose(e.median, MedianRule(e.xs), "1e-4", "1e-6")>> >>
Squared(v) == IF RIsNaN(v) THEN "NaN" ELSE RSq(v)
Near(v, w, s) == IF RLt(w, RMul("-1e-4", s)) THEN RIsNaN(v) ELSE IF RLt(w, RMul("1e-4", s)) THEN RIsNaN(v) \/ RLe(RSq(v), RMul("2e-4", s)) ELSE ~RIsNaN(v) /\ RLe(RAbs(RSub(RSq(v), w)), RMul("1e-3", s))
FullClauses ==
    LET right == KSDSquared(e.k, e.xs, e.gs, e.w, "1")
        known == KSDSquared(e.k, e.xs, e.gs, e.w, "-1")
        n == Len(e.xs)
        size == RAdd("1e-6", RMax(RAbs(right), RAbs(known)))
    IN << <<"the discrepancy equals its double sum, or that with the cross terms reversed", Near(e.out, right, size) \/ Near(e.out, known, size)>>,
          <<"the discrepancy equals its double sum", Near(e.out, right, size)>> >>
\* outs: values over many draws of the batches; all terms of the sum are positive here
MiniClauses ==
    LET right == KSDSquared(e.k, e.xs, e.gs, e.w, "1")
        known == KSDSquared(e.k, e.xs, e.gs, e.w, "-1")
        sq == Forced([i \in 1..Len(e.outs) |-> Squared(e.outs[i])])
        Mean(v) == (\A i \in 1..Len(sq) : ~RIsNaN(sq[i])) /\ SampleMean(sq, v)
    IN << <<"batched discrepancies average to the double sum, or that with the cross terms reversed", Mean(right) \/ Mean(known)>>,
          <<"batched discrepancies vary with the batches", e.whole \/ \E i, j \in 1..Len(sq) : ~REq(sq[i], sq[j])>>,
          <<"batched discrepancies average to the double sum", Mean(right)>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Points" -> PointClauses
             [] e.ev = "Batch" -> BatchClauses
             [] e.ev = "Rule" -> RuleClauses
             [] e.ev = "Full" -> FullClauses
             [] e.ev = "Mini" -> MiniClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Keep(bad, Failing(l, e, Clauses)) /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
