-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Real numbers for TLC.  A real is a string holding a decimal literal, or *)
(* "NaN", "Infinity", "-Infinity" (an integer is accepted where a real is  *)
(* expected).  TLC evaluates the operators below with java/Real.class      *)
(* (IEEE double); their mathematical meaning is given in the comments, and *)
(* the vector operators are *defined* here from the scalar ones: the Java  *)
(* class only makes them fast.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

RealPrimitive(op, a, b) == CHOOSE x : FALSE   \* never evaluated: overridden

R(a)        == a                     \* canonical form
RAdd(a, b)  == RealPrimitive("+", a, b)
RSub(a, b)  == RealPrimitive("-", a, b)
RMul(a, b)  == RealPrimitive("*", a, b)
RDiv(a, b)  == RealPrimitive("/", a, b)
RNeg(a)     == RSub("0", a)
RAbs(a)     == RealPrimitive("abs", a, a)
RExp(a)     == RealPrimitive("exp", a, a)
RLog(a)     == RealPrimitive("ln", a, a)
RSqrt(a)    == RealPrimitive("sqrt", a, a)
RPow(a, b)  == RealPrimitive("pow", a, b)
RSin(a)     == RealPrimitive("sin", a, a)
RCos(a)     == RealPrimitive("cos", a, a)
RPhi(a)     == RealPrimitive("standard normal distribution function", a, a)
RLGamma(a)  == RealPrimitive("ln gamma", a, a)
RMin(a, b)  == RealPrimitive("min", a, b)
RMax(a, b)  == RealPrimitive("max", a, b)
RFloor(a)   == RealPrimitive("floor", a, a)      \* an integer
RRound(a, n) == RealPrimitive("round", a, n)     \* half-even to n decimals
RLt(a, b)   == RealPrimitive("<", a, b)
RLe(a, b)   == RealPrimitive("<=", a, b)
REq(a, b)   == RealPrimitive("=", a, b)          \* numeric equality; FALSE on NaN
RIsNaN(a)   == RealPrimitive("isnan", a, a)
RIsFinite(a) == RealPrimitive("isfinite", a, a)

(* |a - b| <= at + rt * max(|a|,|b|); infinities only close to themselves; *)
(* NaN close to nothing                                                    *)
RClose(a, b, rt, at) ==
    RLe(RAbs(RSub(a, b)), RAdd(at, RMul(rt, RMax(RAbs(a), RAbs(b)))))

VClose(u, v, rt, at) ==
    Len(u) = Len(v) /\ \A i \in 1..Len(u) : RClose(u[i], v[i], rt, at)
MClose(a, b, rt, at) ==
    Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], rt, at)

VSum(u)      == FoldLeft(RAdd, "0", u)
VSumPow(u, k) == VSum([i \in 1..Len(u) |-> RPow(u[i], k)])
VMulE(u, v)  == [i \in 1..Len(u) |-> RMul(u[i], v[i])]
VDot(u, v)   == VSum(VMulE(u, v))
VMaxR(u)     == FoldLeft(RMax, "-Infinity", u)
VMinR(u)     == FoldLeft(RMin, "Infinity", u)
VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VScale(k, u) == [i \in 1..Len(u) |-> RMul(k, u[i])]
VShift(k, u) == [i \in 1..Len(u) |-> RAdd(k, u[i])]
VLogSumExp(u) == LET m == VMaxR(u)
                 IN RAdd(m, RLog(VSum([i \in 1..Len(u) |-> RExp(RSub(u[i], m))])))
VSort(u)     == SortSeq(u, RLe)

MTr(a)       == [j \in 1..Len(a[1]) |-> [i \in 1..Len(a) |-> a[i][j]]]
MVec(a, v)   == [i \in 1..Len(a) |-> VDot(a[i], v)]
MMul(a, b)   == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> VDot(a[i], MTr(b)[j])]]
MInv(a)      == CHOOSE b \in Seq(Seq(STRING)) :   \* overridden: Gauss-Jordan
                    MClose(MMul(a, b), [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> IF i = j THEN "1" ELSE "0"]], "0", "0")
MDet(a)      == RealPrimitive("det", a, a)
-----------------------------------------------------------------------------
(* Derived operators, plain TLA+                                           *)
VExp(u)      == [i \in 1..Len(u) |-> RExp(u[i])]
VNeg(u)      == VScale("-1", u)
VMean(u)     == RDiv(VSum(u), Len(u))
VSqNorm(u)   == VDot(u, u)
MAdd(a, b)   == [i \in 1..Len(a) |-> VAdd(a[i], b[i])]
MSub(a, b)   == [i \in 1..Len(a) |-> VSub(a[i], b[i])]
MScale(k, a) == [i \in 1..Len(a) |-> VScale(k, a[i])]
MId(n)       == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
MDiag(v)     == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE "0"]]
Outer(u, v)  == [i \in 1..Len(u) |-> VScale(u[i], v)]
Quad(u, m, v) == VDot(u, MVec(m, v))
RSq(a)       == RMul(a, a)
VSumSq(u)    == VDot(u, u)
Forced(v)    == v                                \* evaluated at once, for TLC's sake
=============================================================================
