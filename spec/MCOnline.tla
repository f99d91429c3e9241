------------------------------ MODULE MCOnline ------------------------------
(* Fixed-lag smoothing of two-state models.  The gluing rule, applied to   *)
(* all trajectories weighted by their exact law, gives the fixed-lag law.  *)
EXTENDS OnlineSmoothing, FiniteSets, Json

CONSTANTS TMax, Lags, Models
VARIABLES model, ys, lag, t

Tables == << [p0 |-> <<"0.5","0.5">>, p |-> << <<"0.75","0.25">>, <<"0.25","0.75">> >>, g |-> << <<"0.75","0.25">>, <<"0.1","0.9">> >>],
             [p0 |-> <<"0.25","0.75">>, p |-> << <<"0.5","0.5">>, <<"0.9","0.1">> >>, g |-> << <<"0.9","0.1">>, <<"0.25","0.75">> >>] >>
m == Tables[model]
Init == model \in Models /\ ys \in [1..TMax -> {1, 2}] /\ lag \in Lags /\ t = 1
Observe == t < TMax /\ t' = t + 1 /\ UNCHANGED <<model, ys, lag>>
Spec == Init /\ [][Observe]_<<model, ys, lag, t>>

Law(T) == FixedLagLaw(m, ys, lag, T)
SumOf(law) == LET s == SetToSeq(DOMAIN law) IN VSum([i \in 1..Len(s) |-> law[s[i]]])
IsALaw == LET l == Law(t) IN RClose(SumOf(l), "1", "1e-9", "0")
ExactWithinLag == lag >= t => LET l == Law(t)  z == VSum([i \in 1..Len(SetToSeq(FinitePaths(m, t))) |-> JointProb(m, ys, SetToSeq(FinitePaths(m, t))[i], t)])
                              IN \A p \in DOMAIN l : RClose(l[p], RDiv(JointProb(m, ys, p, t), z), "1e-9", "1e-12")
FrozenPast == (t > 1 /\ Frozen(t, lag) >= 1) =>
    LET k == Frozen(t, lag)  a == Law(t)  b == Law(t - 1)
    IN \A h \in FinitePaths(m, k) : RClose(Marginal(a, t, k, h), Marginal(b, t - 1, k, h), "1e-9", "1e-12")
\* the particle method on infinitely many particles: trajectories of t-1 states with their law, extended and weighted by the new observation
GlueIsExact == (t > 1 /\ Frozen(t, lag) >= 1) =>
    LET k == Frozen(t, lag)
        before == Law(t - 1)  after == Law(t)
        recents == FinitePaths(m, t)
        \* weight of an extended trajectory, with the density across its own junction removed
        own(r) == RMul(RMul(before[SubSeq(r, 1, t - 1)], m.p[r[t-1]][r[t]]), RDiv(m.g[r[t]][ys[t]], m.p[r[k]][r[k+1]]))
        late == Forced([s \in FinitePaths(m, t - k) |->
                    LET rs == SetToSeq({ r \in recents : SubSeq(r, k + 1, t) = s }) IN VSum([i \in 1..Len(rs) |-> own(rs[i])])])
        ls == SetToSeq(DOMAIN late)
        glued(x, s) == RMul(late[s], m.p[x][s[1]])
        total(x) == VSum([i \in 1..Len(ls) |-> glued(x, ls[i])])
    IN \A p \in recents :
         LET head == SubSeq(p, 1, k) IN
         RClose(after[p], RMul(Marginal(before, t - 1, k, head), RDiv(glued(p[k], SubSeq(p, k + 1, t)), total(p[k]))), "1e-8", "1e-12")
Emit == t = 1 => PrintT("CASE " \o ToJson([model |-> model, ys |-> ys, lag |-> lag]))
=============================================================================
