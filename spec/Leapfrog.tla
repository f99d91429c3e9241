----------------------------- MODULE Leapfrog -----------------------------
(***************************************************************************)
(* Half momentum, full position, half momentum steps, and the underdamped  *)
(* transition built on them:                                               *)
(*   Refresh   p := -p, then the Ornstein-Uhlenbeck transition             *)
(*   Propose   L leapfrog steps, then p := -p                              *)
(*   Accept / Reject   whole states                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real

\* m: [mean, prec, priorprec, temperature]: Gaussian likelihood, isotropic Gaussian prior
Grad(m, x) == VAdd(VScale(m.priorprec, x), VScale(m.temperature, MVec(m.prec, VSub(x, m.mean))))
HalfKick(g, h, p) == VSub(p, VScale(RDiv(h, "2"), g))
Drift(h, x, p) == VAdd(x, VScale(h, p))
RECURSIVE Leap(_, _, _, _, _)
Leap(m, h, x, p, k) ==       \* <<x, p>> after k steps
    IF k = 0 THEN <<x, p>>
    ELSE LET ph == HalfKick(Grad(m, x), h, p)
             x2 == Drift(h, x, ph)
         IN  Leap(m, h, x2, HalfKick(Grad(m, x2), h, ph), k - 1)
Decay(friction, h) == RExp(RNeg(RMul(friction, h)))
=============================================================================
