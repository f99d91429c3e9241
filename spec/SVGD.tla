-------------------------------- MODULE SVGD --------------------------------
(***************************************************************************)
(* Stein variational gradient descent.  Particles xs with potential        *)
(* gradients gs and a kernel k (Kernels).  One iteration                   *)
(*   Direct   phi_i = mean over j (all, or a drawn batch) of               *)
(*                    -K(x_j, x_i) g_j + d/dx_j K(x_j, x_i)                *)
(*   Move     xs by the optimiser applied to -phi                          *)
(*   Adapt    the bandwidth to the new ensemble (when asked to)            *)
(***************************************************************************)
EXTENDS Kernels

Term(k, xs, gs, j, i) == VSub(GradX(k, xs[j], xs[i]), VScale(K(k, xs[j], xs[i]), gs[j]))
Terms(k, xs, gs, i) == Forced([j \in 1..Len(xs) |-> Term(k, xs, gs, j, i)])
MeanOf(ts) == Forced([c \in 1..Len(ts[1]) |-> VMean([j \in 1..Len(ts) |-> ts[j][c]])])
Phi(k, xs, gs) == Forced([i \in 1..Len(xs) |-> MeanOf(Terms(k, xs, gs, i))])
Adapted(k, xs) == LET h == MeanRule(xs) IN Forced([k EXCEPT !.h = [c \in 1..Len(xs[1]) |-> h]])

(* Optimisers: state s = [a, b], gradient g, iteration i (from one), o = [kind, p1, p2] *)
Zero(xs) == [i \in 1..Len(xs) |-> [c \in 1..Len(xs[1]) |-> "0"]]
Each(f(_, _), xs) == Forced([i \in 1..Len(xs) |-> [c \in 1..Len(xs[1]) |-> f(i, c)]])
NewState(o, s, g) ==
    CASE o.kind = "sgd" -> s
      [] o.kind = "momentum" -> [s EXCEPT !.a = MAdd(MScale(o.p1, s.a), g)]
      [] o.kind = "adagrad" ->
            LET b == Each(LAMBDA i, c : RAdd(s.b[i][c], RSq(g[i][c])), g)
            IN [a |-> Each(LAMBDA i, c : RAdd(RMul(o.p1, s.a[i][c]),
                               IF RLt("0", b[i][c]) THEN RMul(RSub("1", o.p1), RDiv(g[i][c], RSqrt(b[i][c]))) ELSE "0"), g), b |-> b]
      [] o.kind = "adam" ->
            [a |-> MAdd(MScale(RSub("1", o.p1), g), MScale(o.p1, s.a)),
             b |-> Each(LAMBDA i, c : RAdd(RMul(RSub("1", o.p2), RSq(g[i][c])), RMul(o.p2, s.b[i][c])), g)]
Moved(o, s, g, xs, eta, i) ==
    CASE o.kind = "sgd" -> MSub(xs, MScale(eta, g))
      [] o.kind \in {"momentum", "adagrad"} -> MSub(xs, MScale(eta, s.a))
      [] o.kind = "adam" ->
            Each(LAMBDA r, c : RSub(xs[r][c], RDiv(RMul(eta, RDiv(s.a[r][c], RSub("1", RPow(o.p1, i + 1)))),
                                                   RAdd(RSqrt(RDiv(s.b[r][c], RSub("1", RPow(o.p2, i + 1)))), "1e-8"))), xs)
=============================================================================
