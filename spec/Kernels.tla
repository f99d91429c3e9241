------------------------------- MODULE Kernels -------------------------------
(***************************************************************************)
(* Kernels and the kernel Stein discrepancy.  A kernel is a record k with  *)
(*   kind "gaussian":  exp(-|(x - y) / h|^2 / 2)                           *)
(*        "precond":   exp(-(x - y)' P (x - y) / (2 h^2))                  *)
(*        "imq":       (c + |(x - y) / h|^2 / 2)^beta                      *)
(* h is a vector with one entry per coordinate (all equal for a scalar).   *)
(* Derivatives are those of the formula.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Real

Scaled(k, x, y) == [i \in 1..Len(x) |-> RDiv(RSub(x[i], y[i]), k.h[i])]
Exponent(k, x, y) ==
    LET d == Scaled(k, x, y) IN RDiv(IF k.kind = "precond" THEN Quad(d, k.p, d) ELSE VSumSq(d), "2")
K(k, x, y) == IF k.kind = "imq" THEN RPow(RAdd(k.c, Exponent(k, x, y)), k.beta) ELSE RExp(RNeg(Exponent(k, x, y)))

(* d/dx of the exponent, and the derivatives of K from those of the outer function *)
Slope(k, x, y) ==
    LET d == Scaled(k, x, y)
        v == IF k.kind = "precond" THEN MVec(k.p, d) ELSE d
    IN  [i \in 1..Len(x) |-> RDiv(v[i], k.h[i])]
Outer1(k, r) == IF k.kind = "imq" THEN RMul(k.beta, RPow(RAdd(k.c, r), RSub(k.beta, "1"))) ELSE RNeg(RExp(RNeg(r)))
Outer2(k, r) == IF k.kind = "imq" THEN RMul(RMul(k.beta, RSub(k.beta, "1")), RPow(RAdd(k.c, r), RSub(k.beta, "2"))) ELSE RExp(RNeg(r))
GradX(k, x, y) == LET r == Exponent(k, x, y) IN Forced(VScale(Outer1(k, r), Slope(k, x, y)))
GradY(k, x, y) == Forced(VNeg(GradX(k, x, y)))
\* second derivatives d2/dx_i dy_i
Curvature(k, i) == RDiv(IF k.kind = "precond" THEN k.p[i][i] ELSE "1", RSq(k.h[i]))
DiagGradXY(k, x, y) ==
    LET r == Exponent(k, x, y)  s == Slope(k, x, y)
    IN  Forced([i \in 1..Len(x) |-> RNeg(RAdd(RMul(Outer1(k, r), Curvature(k, i)), RMul(Outer2(k, r), RSq(s[i]))))])

\* the same by differences
Step(x, i, e) == [x EXCEPT ![i] = RAdd(@, e)]
NumX(k, x, y, i) == RDiv(RSub(K(k, Step(x, i, "0.0001"), y), K(k, Step(x, i, "-0.0001"), y)), "0.0002")
NumXY(k, x, y, i) == RDiv(RSub(NumX(k, x, Step(y, i, "0.0001"), i), NumX(k, x, Step(y, i, "-0.0001"), i)), "0.0002")
---------------------------------------------------------------------------
(* Stein kernel for the score -g; sign "1" is the definition, "-1" the same with the cross terms reversed *)
Stein(k, x, gx, y, gy, sign) ==
    RAdd(RAdd(VSum(DiagGradXY(k, x, y)), RMul(K(k, x, y), VDot(gx, gy))),
         RMul(RNeg(sign), RAdd(VDot(GradX(k, x, y), gy), VDot(gx, GradY(k, x, y)))))
KSDSquared(k, xs, gs, w, sign) ==
    LET n == Len(xs)  total == VSum(w)
    IN  RDiv(VSum([i \in 1..n |-> VSum([j \in 1..n |-> RMul(RMul(w[i], w[j]), Stein(k, xs[i], gs[i], xs[j], gs[j], sign))])]), RSq(total))
---------------------------------------------------------------------------
(* Bandwidth rules: n points with pairwise distances d *)
AllDistances(xs) == Forced([q \in 1..Len(xs) * Len(xs) |->
    LET i == (q - 1) \div Len(xs) + 1  j == q - (i - 1) * Len(xs) IN RSqrt(VSumSq(VSub(xs[i], xs[j])))])
Rule(v, n) == RDiv(v, RSqrt(RMul("2", RLog(n))))
MeanRule(xs) == Rule(VMean(AllDistances(xs)), Len(xs))
MedianRule(xs) == LET s == VSort(AllDistances(xs)) m == Len(s) IN
    Rule(IF 2 * (m \div 2) # m THEN s[(m + 1) \div 2] ELSE RDiv(RAdd(s[m \div 2], s[m \div 2 + 1]), "2"), Len(xs))
=============================================================================
