-------------------------------- MODULE Plots --------------------------------
(* What the plotting functions draw, as a function of what they are given. *)
EXTENDS Diagnostics, FiniteSets

\* the last k values (all of them if there are fewer, or if k is not given: -1)
Latest(x, k) == IF k < 0 \/ k >= Len(x) THEN x ELSE SubSeq(x, Len(x) - k + 1, Len(x))
\* values of several chains are shown one chain after the other
RECURSIVE Chained(_)
Chained(cs) == IF cs = <<>> THEN <<>> ELSE cs[1] \o Chained(Tail(cs))
Column(rows, d) == [i \in 1..Len(rows) |-> rows[i][d]]
\* histogram: equally wide bins from the least to the largest value
Edge(x, bins, k) == LET lo == VMinR(x) hi == VMaxR(x) IN RAdd(lo, RMul(RDiv(k, bins), RSub(hi, lo)))
\* between the values certainly in bin k and those possibly in it (edges are rounded)
AtLeast(x, bins, k, slack) == Cardinality({ i \in 1..Len(x) : (k = 1 \/ RLt(RAdd(Edge(x, bins, k - 1), slack), x[i])) /\ (k = bins \/ RLt(RAdd(x[i], slack), Edge(x, bins, k))) })
AtMost(x, bins, k, slack) == Cardinality({ i \in 1..Len(x) : RLe(RSub(Edge(x, bins, k - 1), slack), x[i]) /\ RLe(x[i], RAdd(Edge(x, bins, k), slack)) })
\* height of a bin that holds c values
Height(x, bins, density, c) == IF density THEN RDiv(RMul(c, bins), RMul(Len(x), RSub(VMaxR(x), VMinR(x)))) ELSE c
=============================================================================
