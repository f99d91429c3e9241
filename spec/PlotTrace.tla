------------------------------ MODULE PlotTrace ------------------------------
(* What the real plotting functions drew, judged by Plots.                 *)
EXTENDS Plots, SSM, TraceKit

VARIABLES l, st, bad
e == Trace[l]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], "1e-5", "1e-6")

TraceClauses ==
    << <<"the trace shows the requested number of latest values in order", Same(e.y, Latest(e.x, e.last))>>,
       <<"consecutive values are shown one apart", \A i \in 1..Len(e.at) - 1 : RClose(RSub(e.at[i + 1], e.at[i]), "1", "1e-6", "1e-6")>> >>
HistClauses ==
    LET x == Forced(IF e.dim < 0 THEN e.x ELSE Column(Chained(e.x), e.dim + 1))
        slack == RMul("1e-5", RAdd("1", RMax(RAbs(VMaxR(x)), RAbs(VMinR(x)))))
        n == e.bins
    IN << <<"the histogram has the requested number of bins over the range of the values",
            Len(e.h) = n /\ Len(e.left) = n /\ \A k \in 1..n : RLe(RAbs(RSub(e.left[k], Edge(x, n, k - 1))), slack)>>,
          <<"bars count the values in their bin",
            Len(e.h) = n => \A k \in 1..n : /\ RLe(RMul("0.9999", Height(x, n, e.density, AtLeast(x, n, k, slack))), RAdd(e.h[k], "1e-6"))
                                            /\ RLe(e.h[k], RAdd(RMul("1.0001", Height(x, n, e.density, AtMost(x, n, k, slack))), "1e-6"))>>,
          <<"together they count every value once", Len(e.h) = n => RClose(VSum(e.h), Height(x, n, e.density, Len(x)), "1e-4", "1e-6")>> >>
ScatterClauses ==
    LET rows == Chained(e.x)
    IN << <<"points are shown at the requested coordinates", Same(Column(e.points, 1), Column(rows, e.dims[1] + 1)) /\ Same(Column(e.points, 2), Column(rows, e.dims[2] + 1))>> >>
BarClauses ==
    LET a == Autocorrelation(e.x, e.most)
    IN << <<"the bar of a lag has the height of its autocorrelation", Len(e.h) = Len(a) /\ \A k \in 1..Len(a) : RClose(e.at[k], k - 1, "1e-6", "1e-6") /\ RClose(e.h[k], a[k], "5e-4", "5e-4")>>,
          <<"lags are shown up to the requested one", RClose(e.right, e.shown, "1e-6", "1e-6")>> >>
AxesClauses == << <<"plots are drawn on the axes given, or on new ones that are returned with their figure", e.same>> >>
\* density of a two-dimensional scenario on a grid: rows are the second coordinate
GridClauses ==
    LET n == Len(e.x) m == Len(e.y) prec == Forced(MInv(e.cov))
        energy(i, j) == LET d == VSub(<<e.x[j], e.y[i]>>, e.mean) IN RMul("0.5", Quad(d, prec, d))
        shown(i, j) == IF e.potential THEN e.z[i][j] ELSE RNeg(RLog(e.z[i][j])) \* up to the normalising constant
        lin(a, b, k, j) == RAdd(a, RMul(RDiv(j - 1, k - 1), RSub(b, a)))
    IN << <<"the density is shown over the limits given", \A j \in 1..n : RClose(e.x[j], lin(e.xlim[1], e.xlim[2], n, j), "1e-4", "1e-4")>>,
          <<"in both directions", \A j \in 1..m : RClose(e.y[j], lin(e.ylim[1], e.ylim[2], m, j), "1e-4", "1e-4")>>,
          <<"the density, or the potential if requested, is shown at its position",
            Len(e.z) = m /\ (\A i \in 1..m : Len(e.z[i]) = n) /\ (~e.potential => \A i \in 1..m : \A j \in 1..n : RLt("0", e.z[i][j])) /\ \A i \in 1..m : \A j \in 1..n :
                RClose(RSub(shown(i, j), shown(1, 1)), RSub(energy(i, j), energy(1, 1)), "2e-3", "2e-3")>> >>
\* automatic limits: where a Gaussian exceeds a tenth of its mode, as far as a search grid of a hundred points a side can tell
LimitClauses ==
    LET half == [i \in 1..2 |-> RSqrt(RMul(RMul("2", RLog("10")), e.cov[i][i]))]
        far(lim) == RMax("10", RMul("2", RMax(RAbs(lim[1]), RAbs(lim[2]))))
        slack(lim) == RMul("0.0405", far(lim))
        Fits(lim, i) == /\ RLe(RAbs(RSub(lim[1], RSub(e.mean[i], half[i]))), slack(lim)) /\ RLe(RAbs(RSub(lim[2], RAdd(e.mean[i], half[i]))), slack(lim))
    IN << <<"automatic limits enclose the region of at least a tenth of the largest density", Fits(e.xlim, 1)>>,
          <<"automatic limits of the second coordinate enclose it as well", Fits(e.ylim, 2)>>,
          <<"automatic limits are kept for the next plot", e.kept>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Trace" -> TraceClauses
             [] e.ev = "Hist" -> HistClauses
             [] e.ev = "Scatter" -> ScatterClauses
             [] e.ev = "Bars" -> BarClauses
             [] e.ev = "Axes" -> AxesClauses
             [] e.ev = "Grid" -> GridClauses
             [] e.ev = "Limits" -> LimitClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = Keep(bad, Failing(l, e, Clauses))
             /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
