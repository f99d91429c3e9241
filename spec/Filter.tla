------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* Particle filters.  State: n trajectories up to the current time with    *)
(* log weights lw.  A step with observation y at time t:                   *)
(*   Resample  exactly when ESS(lw) < threshold * n: n trajectories drawn  *)
(*             in proportion to weight, lw := 0                            *)
(*   Extend    each trajectory by a state drawn from the proposal,         *)
(*             lw := lw + ln(transition * observation / proposal)          *)
(* Proposals: "bootstrap" the transition; "optimal" the transition         *)
(* conditioned on y (Gaussian noise, linear observation); "guided" the     *)
(* transition shifted and widened.                                         *)
(***************************************************************************)
EXTENDS SSM, SMC

FilterDue(lw, thr) == RLt(Ess(lw), RMul(thr, Len(lw)))
FilterEdge(lw, thr) == OnTheEdge(lw, thr)

Shift(d) == [i \in 1..d |-> "0.2"]
PropMean(kind, m, x, s, y, t) ==
    CASE kind = "optimal" -> CondMean(TransMean(m, x, s, t), TransCov(m, s, t), ObsMatrix(m, t), ObsCov(m, x, t), y)
      [] kind = "guided" -> VAdd(TransMean(m, x, s, t), Shift(Len(x)))
      [] OTHER -> TransMean(m, x, s, t)
PropCov(kind, m, s, t) ==
    CASE kind = "optimal" -> CondCov(TransCov(m, s, t), ObsMatrix(m, t), ObsCov(m, << >>, t))
      [] kind = "guided" -> MScale("1.7", TransCov(m, s, t))
      [] OTHER -> TransCov(m, s, t)
\* increment of the log weight of a particle moving from x to z
LogIncrement(kind, m, x, s, z, y, t) ==
    CASE kind = "bootstrap" -> RNeg(ObsPot(m, z, y, t))
      [] kind = "optimal" ->
            LET h == ObsMatrix(m, t)
            IN  RNeg(GaussPot(y, MVec(h, TransMean(m, x, s, t)), MAdd(MMul(MMul(h, TransCov(m, s, t)), MTr(h)), ObsCov(m, x, t))))
      [] OTHER -> RAdd(RNeg(RAdd(TransPot(m, x, s, z, t), ObsPot(m, z, y, t))), GaussPot(z, PropMean(kind, m, x, s, y, t), PropCov(kind, m, s, t)))
InitialLogWeight(kind, m, x, y, t) == IF kind = "optimal" THEN "0" ELSE RNeg(ObsPot(m, x, y, t))
InitialMean(kind, m, y, t) ==
    IF kind = "optimal" THEN CondMean(InitMean(m, t), InitCov(m, t), ObsMatrix(m, t), ObsCov(m, << >>, t), y) ELSE InitMean(m, t)
InitialCov(kind, m, y, t) ==
    IF kind = "optimal" THEN CondCov(InitCov(m, t), ObsMatrix(m, t), ObsCov(m, << >>, t)) ELSE InitCov(m, t)
=============================================================================
