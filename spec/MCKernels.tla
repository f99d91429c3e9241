------------------------------ MODULE MCKernels ------------------------------
(* Kernels over a grid of parameters and points: symmetric, positive       *)
(* definite, with the derivatives of their formula; the Stein kernel of a  *)
(* Gaussian has mean zero in each argument (and would not with the cross   *)
(* terms reversed).  A kernel is reconfigured in steps, as a user does.    *)
(* Prints the histories of parameter changes and calls.                    *)
EXTENDS Kernels, Json

CONSTANT Depth
VARIABLES kind, set, call, hist
\* a parameter is the default (0), or set to value 1 or 2 on the kernel, or given in the call
Params(kd) == CASE kd = "gaussian" -> {"h"} [] kd = "precond" -> {"h", "p"} [] OTHER -> {"h", "c", "beta"}
Kinds == {"gaussian", "precond", "imq"}
Init == kind \in Kinds /\ set = [q \in Params(kind) |-> 0] /\ call = [q \in Params(kind) |-> 0] /\ hist = << >>
Set == \E q \in Params(kind), v \in 1..2 : set' = [set EXCEPT ![q] = v] /\ hist' = Append(hist, [op |-> "set", q |-> q, v |-> v]) /\ call' = [p \in Params(kind) |-> 0]
Call == \E q \in Params(kind), v \in 1..2 : call' = [p \in Params(kind) |-> IF p = q THEN v ELSE 0] /\ hist' = Append(hist, [op |-> "call", q |-> q, v |-> v]) /\ UNCHANGED set
Plain == call' = [p \in Params(kind) |-> 0] /\ hist' = Append(hist, [op |-> "plain", q |-> "h", v |-> 0]) /\ UNCHANGED set
Next == Len(hist) < Depth /\ (Set \/ Call \/ Plain) /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, set, call, hist>>
Now(q) == IF call[q] # 0 THEN call[q] ELSE set[q]
Has(q) == q \in Params(kind)
H(v) == CASE v = 0 -> <<"1", "1">> [] v = 1 -> <<"0.5", "0.5">> [] OTHER -> <<"2", "1.5">>
P(v) == CASE v = 0 -> << <<"2", "0.5">>, <<"0.5", "1">> >> [] v = 1 -> << <<"1", "0">>, <<"0", "3">> >> [] OTHER -> << <<"1", "-0.75">>, <<"-0.75", "1">> >>
C(v) == CASE v = 0 -> "1" [] v = 1 -> "0.25" [] OTHER -> "3"
B(v) == CASE v = 0 -> "-0.5" [] v = 1 -> "-1.5" [] OTHER -> "-0.1"
k == [kind |-> kind, h |-> H(Now("h")), p |-> IF Has("p") THEN P(Now("p")) ELSE << >>, c |-> IF Has("c") THEN C(Now("c")) ELSE "1", beta |-> IF Has("beta") THEN B(Now("beta")) ELSE "1"]

Points == << <<"0", "0">>, <<"0.5", "-1">>, <<"1", "1.5">>, <<"-2", "0.25">> >>
CallsLeaveNoTrace == [][hist'[Len(hist')].op # "set" => set' = set]_<<kind, set, call, hist>>
Fresh == hist = << >> \/ hist[Len(hist)].op # "plain"
Formulas == Fresh => \A i, j \in 1..4 :
    LET x == Points[i] y == Points[j] gx == GradX(k, x, y) d == DiagGradXY(k, x, y)
    IN  /\ REq(K(k, x, y), K(k, y, x))
        /\ \A a \in {1, 2} : RClose(gx[a], NumX(k, x, y, a), "1e-5", "1e-6") /\ RClose(d[a], NumXY(k, x, y, a), "1e-4", "1e-5")
Gram(m) == [i \in 1..m |-> [j \in 1..m |-> K(k, Points[i], Points[j])]]
PositiveDefinite == Fresh => \A m \in 1..4 : RLt("0", MDet(Forced(Gram(m))))
\* integral over x of Stein(x, y) against the standard normal, by a grid
Nodes == [a \in 1..49 |-> RDiv(a - 25, "4")]
Stone(sign) == LET m == 49 IN
    VSum([q \in 1..m * m |-> LET x == << Nodes[(q - 1) \div m + 1], Nodes[q - m * ((q - 1) \div m)] >> y == <<"0.5", "-1">>
                             IN RMul(RMul("0.0625", RDiv(RExp(RDiv(VSumSq(x), "-2")), "6.283185307179586")), Stein(k, x, x, y, y, sign))])
SteinIdentity == hist = << >> => RClose(Stone("1"), "0", "0", "1e-6") /\ RLt("0.01", RAbs(Stone("-1")))
Emit == Len(hist) = Depth => PrintT("CASE " \o ToJson([kind |-> kind, hist |-> hist]))
=============================================================================
