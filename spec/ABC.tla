-------------------------------- MODULE ABC --------------------------------
(***************************************************************************)
(* Simulator-based sampling on finite models: parameter x with prior       *)
(* weight cfg.prior[x], data y simulated with weight cfg.sim[x][y] (each   *)
(* row sums to cfg.q), distance cfg.dist[y] from the observed data, and a  *)
(* threshold cfg.thr.                                                      *)
(*   Draw   an independent draw: x from a proposal, y given x; positive    *)
(*          weight exactly when the distance is strictly below threshold   *)
(*   Move   propose x' symmetrically and y' given x'; accept with          *)
(*          probability min(1, prior ratio) if the distance of y' is       *)
(*          strictly below the threshold and never otherwise               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real

Inside(cfg, y) == cfg.dist[y] < cfg.thr
\* acceptance probability as <<numerator, denominator>>
MoveAlpha(cfg, x, x2, y2) ==
    IF ~Inside(cfg, y2) THEN <<0, 1>>
    ELSE IF cfg.prior[x2] >= cfg.prior[x] THEN <<1, 1>> ELSE <<cfg.prior[x2], cfg.prior[x]>>
Target(cfg, x, y) == IF Inside(cfg, y) THEN cfg.prior[x] * cfg.sim[x][y] ELSE 0
\* detailed balance of (x, y) -> (x2, y2) under a symmetric proposal of x2, cleared of common factors
ABCBalanced(cfg) ==
    \A x, x2 \in DOMAIN cfg.prior, y, y2 \in DOMAIN cfg.dist :
        cfg.prior[x] > 0 /\ cfg.prior[x2] > 0 =>
        LET a == MoveAlpha(cfg, x, x2, y2)  b == MoveAlpha(cfg, x2, x, y)
        IN  Target(cfg, x, y) * cfg.sim[x2][y2] * a[1] * b[2] = Target(cfg, x2, y2) * cfg.sim[x][y] * b[1] * a[2]

(* On recorded numbers *)
WithinThreshold(distance, threshold) == RLt(distance, threshold)
DrawLogWeight(distance, threshold, logratio) == IF WithinThreshold(distance, threshold) THEN logratio ELSE "-Infinity"
ABCAlpha(priorBefore, priorProposed, distance, threshold) ==
    IF ~WithinThreshold(distance, threshold) \/ RIsNaN(distance) THEN "0"
    ELSE LET r == RSub(priorBefore, priorProposed) IN IF RIsNaN(r) THEN "0" ELSE RMin("1", RExp(r))
\* the value below which a fraction p of xs lies, interpolated linearly
Quantile(xs, p) ==
    LET s == VSort(xs)
        pos == RMul(p, Len(xs) - 1)
        k == RFloor(pos)
        f == RSub(pos, k)
        lo == s[k + 1]
        hi == s[IF k + 2 > Len(xs) THEN k + 1 ELSE k + 2]
    IN  IF REq(f, "0") THEN lo ELSE RAdd(RMul(RSub("1", f), lo), RMul(f, hi))
=============================================================================
