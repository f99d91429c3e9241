----------------------------- MODULE QuasiNewton -----------------------------
(***************************************************************************)
(* Limited-memory BFGS matrices in factored form.  From points v_1..v_m    *)
(* with gradients g_1..g_m, differences s_i, y_i + lambda B0 s_i and the   *)
(* initial matrix B0 = diag(d)^2:                                          *)
(*    B := (I - u t') B (I - t u'),  H := (I - p q') H (I - q p')          *)
(* with t = s/s'Bs, u = sqrt(s'Bs/s'y) y + Bs, p = s/s'y,                  *)
(* q = sqrt(s'y/s'Bs) Bs + y, for every pair that is used and has positive *)
(* curvature.  lambda is the least number that gives every used pair at    *)
(* least the curvature r s'B0 s (none for r = -Infinity).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Real

Differences(v) == Forced([i \in 1..Len(v) - 1 |-> VSub(v[i + 1], v[i])])
B0(d) == Forced(MDiag([i \in 1..Len(d) |-> RSq(d[i])]))
H0(d) == Forced(MDiag([i \in 1..Len(d) |-> RDiv("1", RSq(d[i]))]))
Tiny == "1e-10"
Ratio(s, y, d, used) ==
    LET c == Quad(s, B0(d), s) IN IF ~used \/ RLt(c, Tiny) THEN "-Infinity" ELSE RNeg(RDiv(VDot(s, y), c))
Lambda(ss, ys, d, r, used) ==
    IF REq(r, "-Infinity") THEN "0"
    ELSE LET m == VMaxR([i \in 1..Len(ss) |-> Ratio(ss[i], ys[i], d, used[i])])
         IN IF REq(m, "-Infinity") THEN "0" ELSE RMax("0", RAdd(m, r))
Regularised(ss, ys, d, r, used) ==
    LET lam == Lambda(ss, ys, d, r, used) b == B0(d)
    IN Forced([i \in 1..Len(ys) |-> VAdd(ys[i], VScale(lam, MVec(b, ss[i])))])
Accepts(s, y, b, r, used) == used /\ RLt(Tiny, RMin(RAbs(Quad(s, b, s)), RAbs(VDot(s, y)))) /\ (REq(r, "-Infinity") \/ RLt("0", VDot(s, y)))

\* one update of <<B, H, last accepted pair (0 for none), p, q, u, t>>
Pair(w, i, s, y, r, used) ==
    IF ~Accepts(s, y, w.b, r, used) THEN w
    ELSE LET bs == Forced(MVec(w.b, s))  sbs == VDot(s, bs)  sy == VDot(s, y)
             t == VScale(RDiv("1", sbs), s)
             u == Forced(VAdd(VScale(RSqrt(RDiv(sbs, sy)), y), bs))
             p == VScale(RDiv("1", sy), s)
             q == Forced(VAdd(VScale(RSqrt(RDiv(sy, sbs)), bs), y))
             id == MId(Len(s))
             e == Forced(MSub(id, Outer(u, t)))
             f == Forced(MSub(id, Outer(p, q)))
         IN [b |-> Forced(MMul(e, MMul(w.b, MTr(e)))), h |-> Forced(MMul(f, MMul(w.h, MTr(f)))), last |-> i, n |-> w.n + 1]
RECURSIVE Folded(_, _, _, _, _, _)
Folded(w, i, ss, ys, r, used) ==
    IF i > Len(ss) THEN w ELSE LET n == Pair(w, i, ss[i], ys[i], r, used[i]) IN Folded(n, i + 1, ss, ys, r, used)
Matrices(vals, grads, d, r, used) ==
    LET ss == Differences(vals)
        ys == Regularised(ss, Differences(grads), d, r, used)
    IN Folded([b |-> B0(d), h |-> H0(d), last |-> 0, n |-> 0], 1, ss, ys, r, used) @@ [ss |-> ss, ys |-> ys]

(* The factor stored as rows ps, qs over an initial diagonal: prod (I - p_i q_i') D, the last factor leftmost *)
RECURSIVE Factor(_, _, _, _)
Factor(ps, qs, a, i) == IF i > Len(ps) THEN a ELSE Factor(ps, qs, Forced(MSub(a, Outer(ps[i], MVec(MTr(a), qs[i])))), i + 1)
FactorOf(ps, qs, d) == Factor(ps, qs, MDiag(d), 1)
Squared(a) == Forced(MMul(a, MTr(a)))

(* The sampler built on them: leapfrog steps with mass matrix B *)
\* m: [kind, mean, prec, priorprec, temperature, well]: Gaussian likelihood or wells at +-1, isotropic Gaussian prior
LikGrad(m, x) == IF m.kind = "gauss" THEN MVec(m.prec, VSub(x, m.mean)) ELSE [i \in 1..Len(x) |-> RMul(RMul(m.well, x[i]), RSub(RSq(x[i]), "1"))]
LikPot(m, x) == IF m.kind = "gauss" THEN RMul("0.5", Quad(VSub(x, m.mean), m.prec, VSub(x, m.mean)))
                ELSE RMul(RDiv(m.well, "4"), VSum([i \in 1..Len(x) |-> RSq(RSub(RSq(x[i]), "1"))]))
Grad(m, x) == Forced(VAdd(VScale(m.priorprec, x), VScale(m.temperature, LikGrad(m, x))))
Pot(m, x) == RAdd(RMul(RDiv(m.priorprec, "2"), VSumSq(x)), RMul(m.temperature, LikPot(m, x)))
RECURSIVE Leap(_, _, _, _, _, _)
Leap(m, h, inv, x, p, k) ==
    IF k = 0 THEN <<x, p>>
    ELSE LET ph == Forced(VSub(p, VScale(RDiv(h, "2"), Grad(m, x))))
             x2 == Forced(VAdd(x, VScale(h, MVec(inv, ph))))
         IN Leap(m, h, inv, x2, Forced(VSub(ph, VScale(RDiv(h, "2"), Grad(m, x2)))), k - 1)
Energy(m, inv, x, p) == RAdd(Pot(m, x), RMul("0.5", Quad(p, inv, p)))
=============================================================================
