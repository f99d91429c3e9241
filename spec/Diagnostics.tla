----------------------------- MODULE Diagnostics -----------------------------
(* Chain and weight diagnostics by their definitions.                      *)
EXTENDS Integers, Sequences, SMC, TLC, Real

Centred(x) == LET m == VMean(x) IN VShift(RNeg(m), x)
AutoCov(c, k) == IF k >= Len(c) THEN "0" ELSE VDot(SubSeq(c, 1, Len(c) - k), SubSeq(c, k + 1, Len(c)))
\* autocorrelations at lags 0..m-1, at most one per element
Autocorrelation(x, m) ==
    LET c == Forced(Centred(x))
        v == VSumSq(c)
        k == IF m < Len(x) THEN m ELSE Len(x)
    IN  Forced([i \in 1..k |-> RDiv(AutoCov(c, i - 1), v)])
\* integrated autocorrelation time cut off after the lag M
RECURSIVE Cumulated(_, _, _)
Cumulated(a, k, acc) == IF k > Len(a) THEN acc ELSE Cumulated(a, k + 1, Append(acc, RAdd(acc[Len(acc)], a[k])))
\* element M is 1 + 2 (a_1 + ... + a_M), a = autocorrelations from lag zero
Times(a) == LET c == Cumulated(a, 2, << "0" >>) IN Forced([M \in 1..Len(a)-1 |-> RAdd("1", RMul("2", c[M + 1]))])
\* automatic cut-off: the first lag beyond five times the integrated time
Margin(t, M) == RSub(M, RMul("5", t[M]))
Windows(t) == { M \in 1..Len(t) : RLt("0", Margin(t, M)) }
Window(t) == CHOOSE M \in Windows(t) : \A j \in Windows(t) : M <= j
---------------------------------------------------------------------------
SquaredJumps(xs, D) ==  \* xs: positions, D the dimension
    Forced([d \in 1..D |-> VMean([i \in 1..Len(xs)-1 |-> RSq(RSub(xs[i+1][d], xs[i][d]))])])
=============================================================================
