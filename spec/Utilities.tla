------------------------------ MODULE Utilities ------------------------------
(***************************************************************************)
(* Root finding and small numerical utilities.                             *)
(*                                                                         *)
(* Root finder: state [b (bounds), v (function values there), it].  It is  *)
(* finished when a value is within the tolerance, the iterations are used  *)
(* up or the values have the same sign; otherwise one bound is moved to a  *)
(* point between the bounds such that the values keep opposite signs.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Real

SameSign(v) == (RLt(v[1], "0") /\ RLt(v[2], "0")) \/ (RLt("0", v[1]) /\ RLt("0", v[2]))
Smallest(v) == RMin(RAbs(v[1]), RAbs(v[2]))
Finished(s, limit, tol) == RLt(Smallest(s.v), tol) \/ s.it >= limit \/ SameSign(s.v)
Between(x, b) == RLe(RMin(b[1], b[2]), x) /\ RLe(x, RMax(b[1], b[2]))
\* next is obtained from s by moving one bound to a point between them
Narrowed(s, next) ==
    /\ next.it = s.it + 1
    /\ \/ REq(next.b[1], s.b[1]) /\ REq(next.v[1], s.v[1]) /\ Between(next.b[2], s.b)
       \/ REq(next.b[2], s.b[2]) /\ REq(next.v[2], s.v[2]) /\ Between(next.b[1], s.b)
    /\ ~SameSign(next.v)
\* piecewise linear function through (0, y[1]), (1, y[2]), ...
Piecewise(y, x) ==
    LET n == Len(y) - 1
        i == IF RLt(x, "0") THEN 0 ELSE IF RLe(n, x) THEN n - 1 ELSE RFloor(x)
        f == RMin("1", RMax("0", RSub(x, i)))
    IN  RAdd(RMul(RSub("1", f), y[i + 1]), RMul(f, y[i + 2]))
---------------------------------------------------------------------------
\* all indices 0..n except r (one that is not there removes the last)
LeaveOneOut(n, r) == [i \in 1..n |-> IF i - 1 < r THEN i - 1 ELSE i]
---------------------------------------------------------------------------
(* Gaussian potential with precision matrix p *)
QuadForm(x, m, p) == LET d == VSub(x, m) IN RDiv(Quad(d, p, d), "2")
LogNormaliser(d, det) == RDiv(RSub(RMul(d, RLog("6.283185307179586")), RLog(det)), "2")
---------------------------------------------------------------------------
(* Gaspari-Cohn taper of the distance around a circle of dim points *)
IMin(a, b) == IF a < b THEN a ELSE b
IAbs(a) == IF a < 0 THEN 0 - a ELSE a
Circular(dim, i, j) == IMin(IAbs(i - j), dim - IAbs(i - j))
Poly(cs, z) == VSum([k \in 1..Len(cs) |-> RMul(cs[k], RPow(z, k - 1))])
Taper(z) ==
    IF RLt(z, "1") THEN Poly(<<"1", "0", RDiv("-5", "3"), "0.625", "0.5", "-0.25">>, z)
    ELSE IF RLt(z, "2") THEN RSub(Poly(<<"4", "-5", RDiv("5", "3"), "0.625", "-0.5", RDiv("1", "12")>>, z), RDiv("2", RMul("3", z)))
    ELSE "0"
GCMatrix(dim, radius) == [i \in 1..dim |-> [j \in 1..dim |-> Taper(RDiv(Circular(dim, i, j), radius))]]
---------------------------------------------------------------------------
(* gain for state covariance c, observation matrix h, observation covariance r *)
Gain(c, h, r) == MMul(MMul(c, MTr(h)), MInv(MAdd(MMul(MMul(h, c), MTr(h)), r)))
Distances(xs) == [i \in 1..Len(xs) |-> [j \in 1..Len(xs) |-> RSqrt(VSumSq(VSub(xs[i], xs[j])))]]
=============================================================================
