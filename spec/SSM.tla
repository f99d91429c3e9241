-------------------------------- MODULE SSM --------------------------------
(***************************************************************************)
(* State-space models.  A model m has an initial distribution, transitions *)
(* from (x, s) to time t, and observations of (x, t).  Gaussian kinds give *)
(* a mean and a covariance for each; the finite kind gives tables.         *)
(*   linear      x' ~ N(f x, q)                    y ~ N(h x, r)           *)
(*   drifting    x' ~ N((e^(-0.4 dt) f + 0.1 cos(t) I) x, dt q)            *)
(*               y ~ N((1 + 0.2 sin t) h x, (1 + 0.1 t) r)                 *)
(*               x0 ~ N((1 + t) mean, (1 + t) cov)                         *)
(*   sine        x' ~ N(f x + sin x + 0.3 dt + 0.2 cos s, q)   y as linear *)
(*   benchmark   x' ~ N(x/2 + 25x/(1+x^2) + 8 cos(1.2 s), q)               *)
(*               y ~ N(x^2/20, r)                                          *)
(*   volatility  x' ~ N(f x, dt q)                 y ~ N(0, diag(r e^x))   *)
(*   lorenz63, lorenz96   x' ~ N(flow of the equations for t - s, q)        *)
(*               y as linear                                               *)
(*   lattice     states 1..k: initial p0, transition p, observation g      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real, TLC

TwoPi == "6.283185307179586"
\* -ln N(x; mean, cov)
GaussPot(x, mean, cov) ==
    LET d == VSub(x, mean)
    IN  RMul("0.5", RAdd(RAdd(RMul(Len(x), RLog(TwoPi)), RLog(MDet(cov))), Quad(d, MInv(cov), d)))
Diagonal(a) == [i \in 1..Len(a) |-> a[i][i]]

InitMean(m, t) == IF m.kind = "drifting" THEN VScale(RAdd("1", t), m.mean) ELSE m.mean
InitCov(m, t) == IF m.kind = "drifting" THEN MScale(RAdd("1", t), m.cov) ELSE m.cov
FlowMatrix(m, s, t) ==
    IF m.kind = "drifting"
    THEN MAdd(MScale(RExp(RMul("-0.4", RSub(t, s))), m.f), MScale(RMul("0.1", RCos(t)), MId(Len(m.f))))
    ELSE m.f
\* Lorenz's equations and their flow (Runge-Kutta)
Lorenz63(m, x) == << RMul(m.sigma, RSub(x[2], x[1])), RSub(RMul(x[1], RSub(m.rho, x[3])), x[2]), RSub(RMul(x[1], x[2]), RMul(m.beta, x[3])) >>
Lorenz96(m, x) ==
    LET d == Len(x)  C(i) == x[((i - 1 + 2 * d) % d) + 1]
    IN  [i \in 1..d |-> RAdd(RSub(RMul(RSub(C(i + 1), C(i - 2)), C(i - 1)), x[i]), m.forcing)]
Speed(m, x) == IF m.kind = "lorenz63" THEN Lorenz63(m, x) ELSE Lorenz96(m, x)
RungeKutta(m, x, h) ==
    LET a == Forced(Speed(m, x))
        b == Forced(Speed(m, VAdd(x, VScale(RDiv(h, "2"), a))))
        c == Forced(Speed(m, VAdd(x, VScale(RDiv(h, "2"), b))))
        d == Forced(Speed(m, VAdd(x, VScale(h, c))))
    IN  VAdd(x, VScale(RDiv(h, "6"), VAdd(VAdd(a, d), VScale("2", VAdd(b, c)))))
RECURSIVE Steps(_, _, _, _)
Steps(m, x, h, n) == IF n = 0 THEN x ELSE Steps(m, Forced(RungeKutta(m, x, h)), h, n - 1)
Flow(m, x, dt) == Steps(m, x, RDiv(dt, "40"), 40)
TransMean(m, x, s, t) ==
    CASE m.kind = "sine" -> [i \in 1..Len(x) |-> RAdd(RAdd(VDot(m.f[i], x), RSin(x[i])), RAdd(RMul("0.3", RSub(t, s)), RMul("0.2", RCos(s))))]
      [] m.kind = "benchmark" -> << RAdd(RAdd(RMul("0.5", x[1]), RDiv(RMul("25", x[1]), RAdd("1", RSq(x[1])))), RMul("8", RCos(RMul("1.2", s)))) >>
      [] m.kind \in {"lorenz63", "lorenz96"} -> Flow(m, x, RSub(t, s))
      [] OTHER -> MVec(FlowMatrix(m, s, t), x)
TransCov(m, s, t) == IF m.kind \in {"drifting", "volatility"} THEN MScale(RSub(t, s), m.q) ELSE m.q
ObsMatrix(m, t) == IF m.kind = "drifting" THEN MScale(RAdd("1", RMul("0.2", RSin(t))), m.h) ELSE m.h
ObsMean(m, x, t) ==
    CASE m.kind = "benchmark" -> << RDiv(RSq(x[1]), "20") >>
      [] m.kind = "volatility" -> [i \in 1..Len(x) |-> "0"]
      [] OTHER -> MVec(ObsMatrix(m, t), x)
ObsCov(m, x, t) ==
    CASE m.kind = "drifting" -> MScale(RAdd("1", RMul("0.1", t)), m.r)
      [] m.kind = "volatility" -> MDiag([i \in 1..Len(x) |-> RMul(m.r[i], RExp(x[i]))])
      [] OTHER -> m.r

At(x) == RFloor(RAdd(x[1], "0.5"))          \* lattice state
MinusLog(p) == RNeg(RLog(p))
InitPot(m, x, t) == IF m.kind = "lattice" THEN MinusLog(m.p0[At(x)]) ELSE GaussPot(x, InitMean(m, t), InitCov(m, t))
TransPot(m, x, s, z, t) == IF m.kind = "lattice" THEN MinusLog(m.p[At(x)][At(z)]) ELSE GaussPot(z, TransMean(m, x, s, t), TransCov(m, s, t))
ObsPot(m, x, y, t) == IF m.kind = "lattice" THEN MinusLog(m.g[At(x)][At(y)]) ELSE GaussPot(y, ObsMean(m, x, t), ObsCov(m, x, t))

\* joint potential of a trajectory and its observations
JointPot(m, xs, ys, ts) ==
    RAdd(RAdd(InitPot(m, xs[1], ts[1]), VSum([k \in 1..Len(xs) |-> ObsPot(m, xs[k], ys[k], ts[k])])),
         VSum([k \in 1..(Len(xs) - 1) |-> TransPot(m, xs[k], ts[k], xs[k+1], ts[k+1])]))

(* Conditioning a Gaussian prediction N(a, c) on an observation y = h x + N(0, r) *)
Gain(c, h, r) == MMul(MMul(c, MTr(h)), MInv(MAdd(MMul(MMul(h, c), MTr(h)), r)))
CondMean(a, c, h, r, y) == VAdd(a, MVec(Gain(c, h, r), VSub(y, MVec(h, a))))
CondCov(c, h, r) == MSub(c, MMul(MMul(Gain(c, h, r), h), c))

(***************************************************************************)
(* Exact inference in linear models ("linear", "drifting"): the joint      *)
(* Gaussian of all states, conditioned on all observations.  No recursion  *)
(* of the code's kind is used.                                             *)
(***************************************************************************)
\* mean of x_k and covariance of (x_j, x_k) before observations; ts times
RECURSIVE PriorMean(_, _, _), PriorVar(_, _, _), PriorCross(_, _, _, _)
PriorMean(m, ts, k) == IF k = 1 THEN InitMean(m, ts[1]) ELSE MVec(FlowMatrix(m, ts[k-1], ts[k]), PriorMean(m, ts, k - 1))
PriorVar(m, ts, k) ==
    IF k = 1 THEN InitCov(m, ts[1])
    ELSE LET f == FlowMatrix(m, ts[k-1], ts[k]) IN MAdd(MMul(MMul(f, PriorVar(m, ts, k - 1)), MTr(f)), TransCov(m, ts[k-1], ts[k]))
PriorCross(m, ts, j, k) ==                   \* j <= k
    IF j = k THEN PriorVar(m, ts, j) ELSE MMul(PriorCross(m, ts, j, k - 1), MTr(FlowMatrix(m, ts[k-1], ts[k])))
\* block matrix from a function of block indices
Blocks(B(_, _), n, d, c) == [r \in 1..(n*d) |-> [s \in 1..(n*c) |-> B(((r-1) \div d) + 1, ((s-1) \div c) + 1)[((r-1) % d) + 1][((s-1) % c) + 1]]]
Flatten(V(_), n, d) == [r \in 1..(n*d) |-> V(((r-1) \div d) + 1)[((r-1) % d) + 1]]

(* Posterior mean and covariance of the stacked states given y_1..y_u      *)
Posterior(m, ts, ys, u) ==
    LET n == Len(ts)  d == Len(m.mean)  c == Len(ys[1])
        cross == Forced([j \in 1..n |-> [k \in 1..n |-> IF j <= k THEN PriorCross(m, ts, j, k) ELSE << >>]])
        Sig(j, k) == IF j <= k THEN cross[j][k] ELSE MTr(cross[k][j])
        means == Forced([k \in 1..n |-> PriorMean(m, ts, k)])
        mu == Flatten(LAMBDA k : means[k], n, d)
        sigma == Forced(Blocks(Sig, n, d, d))
        H(j, k) == IF j = k THEN ObsMatrix(m, ts[j]) ELSE [a \in 1..c |-> [b \in 1..d |-> "0"]]
        h == Forced(SubSeq(Blocks(H, n, c, d), 1, u * c))
        Rr(j, k) == IF j = k THEN ObsCov(m, << >>, ts[j]) ELSE [a \in 1..c |-> [b \in 1..c |-> "0"]]
        r == Forced(Blocks(Rr, u, c, c))
        y == Flatten(LAMBDA k : ys[k], u, c)
    IN  [mean |-> CondMean(mu, sigma, h, r, y), cov |-> CondCov(sigma, h, r)]
BlockOf(v, k, d) == SubSeq(v, (k-1)*d + 1, k*d)
MBlock(a, j, k, d) == [i \in 1..d |-> SubSeq(a[(j-1)*d + i], (k-1)*d + 1, k*d)]
=============================================================================
