---------------------------- MODULE OnlineTrace ----------------------------
(* Real fixed-lag smoothing, judged by OnlineSmoothing.                    *)
(* Lattice: how often (by weight) each path of a finite model occurs.      *)
(* Gauss: trajectories of a linear model, x[t][i][k].                      *)
(* Glue: the same trajectories extended many times with a settled          *)
(* proposal; counts[a][b] pairs of early part a with late part b.          *)
(* Step: particles before and after one step.                              *)
EXTENDS OnlineSmoothing, Stats, TraceKit

VARIABLES l, st, bad
e == Trace[l]
M == e.m
NT == Len(e.ts)
RECURSIVE Total(_)
Total(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + Total(Tail(s))

LatticeClauses ==
    LET T == Len(e.ys)
        law == FixedLagLaw(M, e.ys, e.lag, T)
        size == RDiv("12", e.n)
    IN << <<"trajectories have the fixed-lag law of the model",
            \A i \in 1..Len(e.paths) :
               LET p == law[e.paths[i][1]] IN Within(RSub(RDiv(e.paths[i][2], e.n), p), RMul(RMul(p, RSub("1", p)), size), RDiv("6", e.n))>>,
          <<"trajectories are equally weighted once the lag is exceeded", e.lag >= T \/ e.flat>> >>

GaussClauses ==
    LET d == Len(M.mean)  n == e.n
        post == Forced(FixedLagGauss(M, e.ts, e.ys, e.lag, NT))
        mu(t, i) == post.mean[(t-1)*d + i]
        c(t, i, s, j) == post.cov[(t-1)*d + i][(s-1)*d + j]
        dev == Forced([t \in 1..NT |-> [i \in 1..d |-> VShift(RNeg(mu(t, i)), e.x[t][i])]])
        size == RDiv("16", n)
        Ok(t, i, s, j) == Within(RSub(RDiv(VDot(dev[t][i], dev[s][j]), n), c(t, i, s, j)), RMul(RAdd(RMul(c(t, i, t, i), c(s, j, s, j)), RSq(c(t, i, s, j))), size), "0")
    IN << <<"the means are those of fixed-lag smoothing", \A t \in 1..NT, i \in 1..d : Within(VMean(dev[t][i]), RMul(c(t, i, t, i), size), "0")>>,
          <<"the covariances at one time are those of fixed-lag smoothing", \A t \in 1..NT, i \in 1..d, j \in 1..d : Ok(t, i, t, j)>>,
          <<"the covariances across times are those of fixed-lag smoothing", \A t \in 1..NT, s \in 1..NT, i \in 1..d, j \in 1..d : s <= t \/ Ok(t, i, s, j)>> >>

GlueClauses ==
    LET n == Len(e.lw)  k == e.k  T == NT
        inc == Forced([j \in 1..n |-> RSub(e.prop[j], RAdd(TransPot(M, e.x[T-1][j], e.ts[T-1], e.x[T][j], e.ts[T]), ObsPot(M, e.x[T][j], e.y, e.ts[T])))])
        law(i) == NormalisedWeights(GlueLogWeight(M, e.x[k][i], e.ts[k], e.x[k+1], e.x[k], inc, e.ts[k+1]))
        w == NormalisedWeights(e.lw)
        always == << <<"every trajectory is an early part and a later part of given trajectories", e.foreign = 0>>,
                     <<"glued trajectories are equally weighted", e.flat>> >>
    IN  always \o
        IF e.weighted
        THEN << <<"weighted trajectories are first drawn by weight", \A a \in 1..n : Frequency(Total(e.counts[a]), e.runs * n, w[a])>> >>
        ELSE << <<"later parts are drawn by weight times the density across the junction, relative to their own",
                  \A i \in 1..n : LET p == Forced(law(i)) IN \A j \in 1..n : Frequency(e.counts[i][j], e.runs, RMin("1", p[j]))>> >>

(* one step *)
Rows(x, a, b, i) == [t \in 1..(b - a + 1) |-> x[a + t - 1][i]]
Equal(u, v) == VClose(u, v, "1e-5", "1e-6")
EqualRows(u, v) == Len(u) = Len(v) /\ \A t \in 1..Len(u) : Equal(u[t], v[t])
StepClauses ==
    LET b == e.before  a == e.after
        T == NT  k == Frozen(T, e.lag)  n == Len(b.lw)
        d == Len(a.x[1][1])
        even == \A i \in 1..n : REq(b.lw[i], b.lw[1])
        glued == k >= 1
        alive == { i \in 1..n : ~MinusInf(b.lw[i]) }
        whole == <<
            <<"one time and one observation are appended", VClose(a.t, e.ts, "1e-6", "0") /\ MClose(a.y, e.ys, "1e-6", "0")>>,
            <<"one state is appended to every trajectory", a.shape = <<T, n, d>>>>,
            <<"glued trajectories are equally weighted", (glued \/ e.bs) => \A i \in 1..n : REq(a.lw[i], "0")>> >>
        early == <<
            <<"states older than the lag stay as they are",
              ~glued \/ IF even THEN \A i \in 1..n : EqualRows(Rows(a.x, 1, k, i), Rows(b.x, 1, k, i))
                        ELSE \A i \in 1..n : \E j \in alive : EqualRows(Rows(a.x, 1, k, i), Rows(b.x, 1, k, j))>> >>
        from == IF even THEN 1..n ELSE alive
        forward == IF e.bs THEN << >> ELSE <<
            <<"later states come from one trajectory each",
              IF glued THEN \A i \in 1..n : \E j \in from : EqualRows(Rows(a.x, k + 1, T - 1, i), Rows(b.x, k + 1, T - 1, j))
              ELSE \A i \in 1..n : IF even THEN EqualRows(Rows(a.x, 1, T - 1, i), Rows(b.x, 1, T - 1, i)) ELSE \E j \in from : EqualRows(Rows(a.x, 1, T - 1, i), Rows(b.x, 1, T - 1, j))>>,
            <<"before the lag is exceeded, the weights are those of the filter",
              glued \/ e.kind # "bootstrap" \/
              LET c == RSub(a.lw[1], RNeg(ObsPot(M, a.x[T][1], e.ys[T], e.ts[T])))
              IN \A i \in 1..n : RClose(RSub(a.lw[i], RNeg(ObsPot(M, a.x[T][i], e.ys[T], e.ts[T]))), c, "1e-3", "2e-3")>>,
            <<"before the lag is exceeded, the effective sample size is that of the weights", glued \/ RClose(a.ess[Len(a.ess)], Ess(a.lw), "1e-3", "1e-3")>> >>
        f == e.filter
        backward == IF ~e.bs THEN << >> ELSE <<
            <<"the filter runs along", VClose(f.t, e.ts, "1e-6", "0") /\ MClose(f.y, e.ys, "1e-6", "0") /\ f.shape = <<T, n, d>>>>,
            <<"filter particles of earlier times stay as they are", \A t \in 1..(T-2), i \in 1..n : Equal(f.x[t][i], f.had[t][i])>>,
            <<"the latest filter particles stay or are resampled", \A i \in 1..n : \E j \in 1..n : Equal(f.x[T-1][i], f.had[T-1][j])>>,
            <<"later states are filter particles of their time", \A t \in (IF glued THEN k + 1 ELSE 1)..T, i \in 1..n : \E j \in 1..n : Equal(a.x[t][i], f.x[t][j])>>,
            <<"newest states of zero filter weight are not used", \A i \in 1..n : \E j \in 1..n : ~MinusInf(f.lw[j]) /\ Equal(a.x[T][i], f.x[T][j])>> >>
    IN whole \o early \o forward \o backward

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Lattice" -> LatticeClauses
             [] e.ev = "Gauss" -> GaussClauses
             [] e.ev = "Glue" -> GlueClauses
             [] e.ev = "Step" -> StepClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Keep(bad, Failing(l, e, Clauses)) /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
