----------------------------- MODULE Scenario -----------------------------
(***************************************************************************)
(* A scenario: prior and likelihood potentials, a temperature, parameters; *)
(* and everything derived from them.  A configuration c is                 *)
(*   [kind, t (temperature), prior (coefficient vector), lik (coefficient  *)
(*    vector), plus the parameters of the kind]                            *)
(* Operations replace one entry; the derived functions are *defined* from  *)
(* the current configuration, so there is nothing else they may depend on. *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real

Coord(m, x, i) == MVec(m, x)[i]
\* Gaussian density up to its constant
GaussPot(mean, cov, x) == LET d == VSub(x, mean) IN RMul("0.5", VDot(d, MVec(MInv(cov), d)))
LogTwoPi == RLog(RMul("2", "3.14159265358979323846"))
LogGaussDens(mean, cov, x) ==
    RSub(RNeg(GaussPot(mean, cov, x)), RMul("0.5", RAdd(RMul(Len(x), LogTwoPi), RLog(MDet(cov)))))
\* log sum_k w_k N(x; mean_k, cov_k)
LogMixture(c, x) == VLogSumExp([k \in 1..Len(c.weights) |-> RAdd(RLog(c.weights[k]), LogGaussDens(c.means[k], c.covs[k], x))])
\* user-defined polynomial: sum_i (a x_i^2 + b x_i + c x_i^4)
Poly(a, x) == VSum([i \in 1..Len(x) |-> RAdd(RAdd(RMul(a[1], RSq(x[i])), RMul(a[2], x[i])), RMul(a[3], RSq(RSq(x[i]))))])
TwoPi == RMul("2", "3.14159265358979323846")

Lik(c, x) ==
    CASE c.kind = "gaussian" -> GaussPot(c.mean, c.cov, x)
      [] c.kind = "mixture" -> RNeg(LogMixture(c, x))
      [] c.kind = "doublewell" -> VSum([i \in 1..Len(x) |-> RSub(RDiv(RPow(x[i], 4), "4"), RDiv(RSq(x[i]), "2"))])
      [] c.kind = "rastrigin" -> RAdd(RMul(c.a, Len(x)), VSum([i \in 1..Len(x) |-> RSub(RSq(x[i]), RMul(c.a, RCos(RMul(TwoPi, x[i]))))]))
      [] c.kind = "banana" -> RMul("0.5", RAdd(RDiv(RSq(x[1]), c.lengthiness),
                                  RSq(RSub(RAdd(x[2], RMul(c.curviness, RSq(x[1]))), RMul(c.lengthiness, c.curviness)))))
      [] c.kind = "funnel" -> RMul("0.5", RAdd(RDiv(RSq(x[2]), "3"), RMul(RSq(x[1]), RExp(RDiv(x[2], "-2")))))
      [] c.kind = "poly" -> Poly(c.lik, x)
Prior(c, x) == IF c.prior = <<>> THEN "0" ELSE Poly(c.prior, x)
Tempered(c, x, t) == RAdd(Prior(c, x), RMul(t, Lik(c, x)))

\* central differences of the formulas (step small enough for their curvature in double precision)
H == "0.00001"
Shift(x, i, h) == [x EXCEPT ![i] = RAdd(@, h)]
NumGrad(F(_), x) == [i \in 1..Len(x) |-> RDiv(RSub(F(Shift(x, i, H)), F(Shift(x, i, RNeg(H)))), RMul("2", H))]
GradPrior(c, x) == LET F(y) == Prior(c, y) IN NumGrad(F, x)
GradLik(c, x) == LET F(y) == Lik(c, y) IN NumGrad(F, x)
=============================================================================
