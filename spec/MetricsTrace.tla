---------------------------- MODULE MetricsTrace ----------------------------
(* What the real diagnostics returned, judged by Diagnostics.              *)
EXTENDS Diagnostics, TraceKit

VARIABLES l, st, bad
e == Trace[l]

ChainClauses ==
    LET a == Autocorrelation(e.x, e.most)
        t == Times(a)
        n == Len(e.x)
        auto == Windows(t) # {}
        \* single precision cannot tell which side of the window a margin close to zero is on
        clear == auto /\ \A M \in 1..Window(t) : RLt("0.01", RAbs(Margin(t, M)))
        W == Window(t)
    IN << <<"autocorrelations equal their definition", Len(e.acf) = Len(a) /\ \A k \in 1..Len(a) : RClose(e.acf[k], a[k], e.tol, e.tol)>>,
          <<"integrated times equal their definition for the given lag", \A k \in 1..Len(e.lags) : RClose(e.iats[k], t[e.lags[k] + 1], RMul("20", e.tol), RMul("20", e.tol))>>,
          <<"effective sizes are the length divided by the integrated time",
            \A k \in 1..Len(e.lags) : LET v == t[e.lags[k] + 1] IN RLt(RAbs(v), "0.05") \/ RClose(e.esss[k], RDiv(n, v), RDiv(RMul("40", e.tol), RMin("1", RAbs(v))), "0")>>,
          <<"effective sizes and integrated times use the same lags", n = 1 \/ RIsNaN(e.iat) \/ RLt(RAbs(e.iat), "0.001") \/ RClose(RMul(e.ess, e.iat), n, "1e-4", "0")>>,
          <<"the integrated time is cut off where the lag exceeds five times itself", clear => RClose(e.iat, t[W], RMul("20", e.tol), RMul("20", e.tol))>>,
          <<"the effective size of the chain is its length divided by the integrated time", (clear /\ RLt("0.05", RAbs(t[W]))) => RClose(e.ess, RDiv(n, t[W]), RDiv(RMul("40", e.tol), RMin("1", RAbs(t[W]))), "0")>> >>

\* tolerances relative to the largest finite log weight, where single precision rounds
WeightClauses ==
    LET s == Ess(e.lw)
        f == SelectSeq(e.lw, LAMBDA v : RIsFinite(v))
        size == VMaxR([i \in 1..Len(f) |-> RAbs(f[i])])
        r == RAdd("1e-4", RMul("1e-6", size))
    IN << <<"the effective size of weights equals its definition", RClose(e.ess, s, r, "0")>>,
          <<"the logarithm of the effective size belongs to it", RLe(RAbs(RSub(e.log, RLog(s))), r)>>,
          <<"the effective size is at least one and at most the number of weights", RLe(RSub("1", r), e.ess) /\ RLe(e.ess, RMul(Len(e.lw), RAdd("1", r)))>> >>
JumpClauses ==
    << <<"squared jumping distances equal their definition", Len(e.out) = e.dim /\ VClose(e.out, SquaredJumps(e.xs, e.dim), "1e-4", "1e-7")>> >>
KindClauses == << <<"values and recorded potentials give the same diagnostics", e.same>> >>
RefuseClauses == << <<"values with more than one dimension are refused", e.refused>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Chain" -> ChainClauses
             [] e.ev = "Weights" -> WeightClauses
             [] e.ev = "Jumps" -> JumpClauses
             [] e.ev = "Kind" -> KindClauses
             [] e.ev = "Refuse" -> RefuseClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Keep(bad, Failing(l, e, Clauses)) /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
