-------------------------- MODULE OnlineSmoothing --------------------------
(***************************************************************************)
(* Fixed-lag smoothing.  With L the law of the trajectory after T          *)
(* observations and lag >= 1, let k = T - lag.                             *)
(*   k < 1    L is the posterior of the whole trajectory                   *)
(*   k >= 1   the first k states keep the law they had before, and the     *)
(*            later ones follow the model given state k and all their      *)
(*            observations                                                 *)
(* The particle method keeps each trajectory's first k states and glues to *)
(* trajectory i the later states of trajectory j with probability          *)
(* proportional to  weight_j * p(x_{k+1}^j | x_k^i) / p(x_{k+1}^j | x_k^j).*)
(***************************************************************************)
EXTENDS SSM, SMC, TLC, SequencesExt

Frozen(T, lag) == T - lag

(* Finite models: a law is a function from paths to probabilities          *)
FiniteStates(m) == 1..Len(m.p0)
FinitePaths(m, T) == [1..T -> FiniteStates(m)]
RECURSIVE JointProb(_, _, _, _), CondWeight(_, _, _, _, _)
\* p(path, observations) up to time T
JointProb(m, ys, path, T) ==
    IF T = 0 THEN "1"
    ELSE RMul(RMul(m.g[path[T]][ys[T]], IF T = 1 THEN m.p0[path[1]] ELSE m.p[path[T-1]][path[T]]), JointProb(m, ys, path, T - 1))
\* p(path[k+1..T], y_{k+1..T} | path[k])
CondWeight(m, ys, path, k, T) ==
    IF T = k THEN "1" ELSE RMul(RMul(m.g[path[T]][ys[T]], m.p[path[T-1]][path[T]]), CondWeight(m, ys, path, k, T - 1))
Marginal(law, T, k, head) ==                  \* probability that the first k states are head
    LET ps == SetToSeq({ p \in DOMAIN law : SubSeq(p, 1, k) = head }) IN VSum([i \in 1..Len(ps) |-> law[ps[i]]])
RECURSIVE FixedLagLaw(_, _, _, _)
FixedLagLaw(m, ys, lag, T) ==
    LET k == Frozen(T, lag)
        paths == FinitePaths(m, T)
        seq == SetToSeq(paths)
    IN  IF k < 1
        THEN LET w == Forced([p \in paths |-> JointProb(m, ys, p, T)])
                 z == VSum([i \in 1..Len(seq) |-> w[seq[i]]])
             IN  Forced([p \in paths |-> RDiv(w[p], z)])
        ELSE LET before == FixedLagLaw(m, ys, lag, T - 1)
                 heads == FinitePaths(m, k)
                 mass == Forced([h \in heads |-> Marginal(before, T - 1, k, h)])
                 w == Forced([p \in paths |-> CondWeight(m, ys, p, k, T)])
                 tails(x) == SetToSeq({ p \in paths : p[k] = x /\ \A i \in 1..(k-1) : p[i] = 1 })
                 z == Forced([x \in FiniteStates(m) |-> LET ts == tails(x) IN VSum([i \in 1..Len(ts) |-> w[ts[i]]])])
             IN  Forced([p \in paths |-> IF REq(mass[SubSeq(p, 1, k)], "0") THEN "0" ELSE RMul(mass[SubSeq(p, 1, k)], RDiv(w[p], z[p[k]]))])

(* Gluing: law of j given the end x of the early part                      *)
GlueLogWeight(m, x, s, recent, own, lw, t) ==  \* recent[j]: first late state of j, own[j]: its own previous state
    [j \in 1..Len(recent) |-> IF MinusInf(lw[j]) THEN "-Infinity" ELSE RSub(RAdd(lw[j], TransPot(m, own[j], s, recent[j], t)), TransPot(m, x, s, recent[j], t))]

(* Linear models: law as mean and covariance of the stacked states         *)
SubMat(a, r1, r2, c1, c2) == [i \in 1..(r2 - r1 + 1) |-> SubSeq(a[r1 + i - 1], c1, c2)]
Stack(a, b) == a \o b
BlockMatrix(a, b, c, d) == [i \in 1..(Len(a) + Len(c)) |-> IF i <= Len(a) THEN a[i] \o b[i] ELSE c[i - Len(a)] \o d[i - Len(a)]]
RECURSIVE FixedLagGauss(_, _, _, _, _)
FixedLagGauss(m, ts, ys, lag, T) ==
    LET d == Len(m.mean)
        k == Frozen(T, lag)
        post == Posterior(m, SubSeq(ts, 1, T), SubSeq(ys, 1, T), T)
    IN  IF k < 1 THEN post
        ELSE LET before == FixedLagGauss(m, ts, ys, lag, T - 1)
                 kd == k * d  n == T * d
                 ma == SubSeq(before.mean, 1, kd)
                 ca == SubMat(before.cov, 1, kd, 1, kd)
                 \* under the posterior: the later states given state k
                 ck == SubMat(post.cov, kd - d + 1, kd, kd - d + 1, kd)
                 cl == SubMat(post.cov, kd + 1, n, kd - d + 1, kd)
                 g == MMul(cl, MInv(ck))
                 mk == SubSeq(post.mean, kd - d + 1, kd)
                 ml == SubSeq(post.mean, kd + 1, n)
                 cond == MSub(SubMat(post.cov, kd + 1, n, kd + 1, n), MMul(g, MTr(cl)))
                 ak == SubSeq(ma, kd - d + 1, kd)
                 cak == SubMat(ca, kd - d + 1, kd, 1, kd)            \* cov(x_k, early)
                 cross == MMul(g, cak)                               \* cov(later, early)
                 later == MAdd(cond, MMul(MMul(g, SubMat(ca, kd - d + 1, kd, kd - d + 1, kd)), MTr(g)))
             IN  [mean |-> Forced(ma \o VAdd(ml, MVec(g, VSub(ak, mk)))),
                  cov |-> Forced(BlockMatrix(ca, MTr(cross), cross, later))]
=============================================================================
