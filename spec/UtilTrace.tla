------------------------------ MODULE UtilTrace ------------------------------
(* What the real utilities returned, judged by Utilities.                  *)
EXTENDS Utilities, TraceKit

VARIABLES l, st, bad
e == Trace[l]

(* f: form of the function; state i + 1 is what is returned with i iterations allowed *)
F(x) == CASE e.form = "table" -> Piecewise(e.y, x)
          [] e.form = "line" -> RAdd(e.y[1], RMul(e.y[2], x))
          [] e.form = "cubic" -> RAdd(e.y[1], RMul(e.y[2], RPow(x, 3)))
          [] e.form = "square" -> RSub(RMul(x, x), e.y[1])
          [] e.form = "exp" -> RMul(e.y[2], RSub(RExp(x), e.y[1]))
          [] e.form = "wave" -> RSin(RAdd(e.y[1], RMul(e.y[2], x)))
          [] OTHER -> RMul(e.y[2], RSub(RDiv("1", RAdd("1", RExp(RMul("-20", x)))), e.y[1]))   \* steep
Tol(x) == RAdd("2e-5", RMul("2e-5", RMax(RAbs(F(x)), e.size)))
RootClauses ==
    LET S == e.states  n == Len(S)
        Same(a, b) == REq(a.b[1], b.b[1]) /\ REq(a.b[2], b.b[2]) /\ REq(a.v[1], b.v[1]) /\ REq(a.v[2], b.v[2]) /\ a.it = b.it
        First == S[1]
    IN << <<"without iterations the bounds are returned", First.it = 0 /\ REq(First.b[1], e.bounds[1]) /\ REq(First.b[2], e.bounds[2])>>,
          <<"function values belong to the bounds", \A i \in 1..n : \A k \in {1, 2} : RLe(RAbs(RSub(S[i].v[k], F(S[i].b[k]))), Tol(S[i].b[k]))>>,
          <<"each iteration moves one bound inwards and keeps the root inside",
            \A i \in 1..n-1 : S[i+1].it > i - 1 => Narrowed(S[i], S[i+1])>>,
          <<"the root finder goes on until it is finished", \A i \in 1..n-1 : ~Finished(S[i], i, e.tol) => S[i+1].it = i>>,
          <<"the root finder returns as soon as it is finished", \A i \in 1..n-1 : Finished(S[i], i, e.tol) => Same(S[i], S[i+1])>>,
          <<"iterations are limited", \A i \in 1..n : S[i].it <= i - 1>>,
          <<"a bracketed root is found", LET z == e.final IN
              /\ z.it = e.most \/ Finished(z, e.most, e.tol)
              /\ S[n].it < n - 1 => Same(z, S[n])
              /\ \A k \in {1, 2} : Between(z.b[k], S[n].b) /\ RLe(RAbs(RSub(z.v[k], F(z.b[k]))), Tol(z.b[k]))
              /\ SameSign(S[1].v) \/ ~SameSign(z.v)>> >>

LeaveClauses == << <<"all indices but the removed one are returned", e.out = LeaveOneOut(e.n, e.r)>> >>
PotentialClauses ==
    LET d == Len(e.prec)
        q == Forced([k \in 1..Len(e.xs) |-> QuadForm(e.xs[k], e.means[k], e.prec)])
        c == IF e.constant THEN LogNormaliser(d, MDet(e.prec)) ELSE "0"
    IN << <<"the Gaussian potential equals its definition", Len(e.out) = Len(q) /\ \A k \in 1..Len(q) : RClose(e.out[k], RAdd(q[k], c), "1e-4", "1e-4")>> >>
CovarianceClauses ==
    LET d == Len(e.cov)  sq == e.sqrt  ps == e.psqrt
    IN << <<"the square root is one of the covariance", MClose(MMul(sq, MTr(sq)), e.cov, "1e-4", "1e-4")>>,
          <<"the precision root is one of the precision", MClose(MMul(MMul(ps, MTr(ps)), e.cov), MId(d), "1e-3", "1e-3")>>,
          <<"the determinant is that of the precision", RClose(RMul(e.det, MDet(e.cov)), "1", "1e-3", "0")>> >>
DimensionClauses == << <<"the dimension is the last one of the first array", e.out = e.want>> >>
DistanceClauses == << <<"pairwise distances are Euclidean", MClose(e.out, Forced(Distances(e.xs)), "1e-4", "1e-4")>> >>
TaperClauses == << <<"the taper is that of Gaspari and Cohn around the circle", MClose(e.out, Forced(GCMatrix(e.dim, e.radius)), "2e-5", "2e-5")>> >>
GainClauses == << <<"the gain equals its definition", MClose(e.out, Forced(Gain(e.c, e.h, e.r)), "1e-3", "1e-3")>> >>
StackClauses == << <<"the loop stacks the states while the condition holds", e.out = e.want>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Root" -> RootClauses
             [] e.ev = "Leave" -> LeaveClauses
             [] e.ev = "Potential" -> PotentialClauses
             [] e.ev = "Covariance" -> CovarianceClauses
             [] e.ev = "Dimension" -> DimensionClauses
             [] e.ev = "Distance" -> DistanceClauses
             [] e.ev = "Taper" -> TaperClauses
             [] e.ev = "Gain" -> GainClauses
             [] e.ev = "Stack" -> StackClauses
TraceInit == l = 1 /\ st = 0 /\ bad = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Keep(bad, Failing(l, e, Clauses)) /\ UNCHANGED st
TraceVerdict == Verdict(l, bad)
=============================================================================
