------------------------------ MODULE MCMetrics ------------------------------
(* A chain over three values grows one element at a time, and so does a    *)
(* weight vector (zero weights included).  The diagnostics keep their      *)
(* defining bounds and invariances.  Prints the chains and weights.        *)
EXTENDS Diagnostics, Json
CONSTANT N
VARIABLES x, w
Init == x = << >> /\ w = << >>
Next == Len(x) < N /\ \E v \in 0..2, u \in 0..2 : x' = Append(x, v) /\ w' = Append(w, u)
Spec == Init /\ [][Next]_<<x, w>>
Varies == \E i, j \in 1..Len(x) : x[i] # x[j]
Same(a, b) == RClose(a, b, "1e-9", "1e-9")
Chains == Varies =>
    LET a == Autocorrelation(x, 99) t == Times(a)
    IN  /\ Same(a[1], "1") /\ \A k \in 1..Len(a) : RLe(RAbs(a[k]), "1.000000001")
        /\ Same(t[Len(x) - 1], "0")                                          \* all lags of a centred chain cancel
        /\ LET b == Autocorrelation([i \in 1..Len(x) |-> RAdd("7", RMul("3", x[i]))], 99) IN \A k \in 1..Len(a) : Same(a[k], b[k])
        /\ LET b == Autocorrelation([i \in 1..Len(x) |-> x[Len(x) + 1 - i]], 99) IN \A k \in 1..Len(a) : Same(a[k], b[k])
        /\ Len(Autocorrelation(x, 2)) = 2
Total(s) == VSum(s)
LW == [i \in 1..Len(w) |-> IF w[i] = 0 THEN "-Infinity" ELSE RLog(w[i])]
Weights == RLt("0", Total(w)) =>
    LET s == Ess(LW) m == SelectSeq(LW, LAMBDA v : ~REq(v, "-Infinity"))
    IN  /\ Same(s, RDiv(RSq(Total(w)), VSumSq(w)))
        /\ RLe("0.999999", s) /\ RLe(s, RAdd(Len(w), "0.000001"))
        /\ Same(s, Ess(m))                                                   \* zero weights are absent
        /\ Same(s, Ess([i \in 1..Len(w) |-> IF w[i] = 0 THEN "-Infinity" ELSE RAdd(LW[i], "5000")]))
Emit == Len(x) = N => PrintT("CASE " \o ToJson([x |-> x, w |-> w]))
=============================================================================
