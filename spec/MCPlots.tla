------------------------------- MODULE MCPlots -------------------------------
(* A chain grows one value at a time and is looked at with any window and  *)
(* any number of bins.  Prints the chains with their options.              *)
EXTENDS Plots, Json
CONSTANTS N, Bins
VARIABLES x, last, bins
Init == x = << >> /\ last \in -1..N + 1 /\ bins \in 1..Bins
Next == Len(x) < N /\ \E v \in 0..3 : x' = Append(x, v) /\ UNCHANGED <<last, bins>>
Spec == Init /\ [][Next]_<<x, last, bins>>
Shown == LET s == Latest(x, last)
         IN  /\ Len(s) = (IF last < 0 \/ last > Len(x) THEN Len(x) ELSE last)
             /\ \A i \in 1..Len(s) : s[i] = x[Len(x) - Len(s) + i]            \* a suffix
Varies == \E i, j \in 1..Len(x) : x[i] # x[j]
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Histogram == Varies =>
    LET inner == [k \in 1..bins |-> AtLeast(x, bins, k, "0.0001")] outer == [k \in 1..bins |-> AtMost(x, bins, k, "0.0001")]
    IN  /\ \A k \in 1..bins : inner[k] <= outer[k]
        /\ Sum(inner, bins) <= Len(x) /\ Len(x) <= Sum(outer, bins)
        \* heights of a density have total area one
        /\ REq(RMul(Height(x, bins, TRUE, Len(x)), RDiv(RSub(VMaxR(x), VMinR(x)), bins)), "1") \/ RClose(RMul(Height(x, bins, TRUE, Len(x)), RDiv(RSub(VMaxR(x), VMinR(x)), bins)), "1", "1e-9", "0")
Emit == (Len(x) = N /\ Varies) => PrintT("CASE " \o ToJson([x |-> x, last |-> last, bins |-> bins]))
=============================================================================
