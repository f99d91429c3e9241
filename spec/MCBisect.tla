------------------------------ MODULE MCBisect ------------------------------
(* All functions on a small grid with a bracket, all ways of choosing the  *)
(* next point inside it.  Prints the functions; they are interpolated and  *)
(* given to the real root finder.                                          *)
EXTENDS Utilities, Json

CONSTANTS Top, High
VARIABLES f, lo, hi, it
Points == 0..Top
Val(x) == f[x + 1]
Vals == (0 - High)..High
Differ(a, b) == ~((a < 0 /\ b < 0) \/ (a > 0 /\ b > 0))
Init == f \in [1..Top + 1 -> Vals] /\ ((lo = 0 /\ hi = Top) \/ (lo = Top /\ hi = 0)) /\ it = 0
Over == Val(lo) = 0 \/ Val(hi) = 0 \/ ~Differ(Val(lo), Val(hi)) \/ \A x \in Points : ~(x > IMin(lo, hi) /\ x < lo + hi - IMin(lo, hi))
Move == /\ ~Over /\ it' = it + 1 /\ UNCHANGED f
        /\ \E x \in Points : /\ x > IMin(lo, hi) /\ x < lo + hi - IMin(lo, hi)
             /\ LET rising == Val(hi) > Val(lo)
                    replace == IF rising THEN Val(x) > 0 ELSE Val(x) < 0   \* the upper bound is replaced
                IN  IF replace THEN hi' = x /\ lo' = lo ELSE lo' = x /\ hi' = hi
Spec == Init /\ [][Move]_<<f, lo, hi, it>> /\ WF_<<f, lo, hi, it>>(Move)
SignChange == it > 0 => Differ(Val(lo), Val(hi))
Record == [b |-> <<ToString(lo), ToString(hi)>>, v |-> <<Val(lo), Val(hi)>>, it |-> it]
\* the steps are those of the state machine over reals
Refines == [][Narrowed(Record, Record')]_<<f, lo, hi, it>>
Ends == <>Over
TaperLaws == it = 0 /\ f = [i \in 1..Top + 1 |-> 0] =>
    /\ \A dim \in 1..6, r \in {"0.5", "1", "1.7", "3"} :
         LET g == Forced(GCMatrix(dim, r))
         IN  \A i, j \in 1..dim : REq(g[i][j], g[j][i]) /\ RClose(g[i][i], "1", "1e-12", "0") /\ RLe("-1e-12", g[i][j]) /\ RLe(g[i][j], "1.000001")
    /\ \A k \in 0..19 : RLe(Taper(RDiv(k + 1, "10")), RAdd(Taper(RDiv(k, "10")), "1e-12"))
    /\ RClose(Taper("0.9999999"), Taper("1.0000001"), "1e-5", "0") /\ RClose(Taper("1.9999999"), "0", "0", "1e-5")
    /\ \A n \in 0..5, q \in 0..5 : q <= n => Cardinality({LeaveOneOut(n, q)[i] : i \in 1..n}) = n /\ \A i \in 1..n : LeaveOneOut(n, q)[i] # q /\ LeaveOneOut(n, q)[i] \in 0..n
Emit == (it = 0 /\ lo = 0) => PrintT("CASE " \o ToJson(f))
=============================================================================
