--------------------------- MODULE MCQuasiNewton ---------------------------
(* Histories of points on a grid (with repetitions) on a convex and a      *)
(* non-convex function, some differences not used: the matrices stay       *)
(* positive definite inverses of each other, satisfy the latest secant     *)
(* equation and agree with the textbook updates; leapfrog steps with them  *)
(* are reversible and preserve volume.  Prints the histories.              *)
EXTENDS QuasiNewton, Json

CONSTANT Length
VARIABLES f, r, pts, used
Grid == << <<"0", "0.25">>, <<"1", "-0.5">>, <<"-0.75", "0.5">>, <<"0.25", "1.5">> >>
Model == [kind |-> f, mean |-> <<"0.5", "0">>, prec |-> << <<"2", "0.5">>, <<"0.5", "0.75">> >>, well |-> "2", priorprec |-> "0.1", temperature |-> "1"]
Init == f \in {"gauss", "well"} /\ r \in (IF f = "gauss" THEN {"-Infinity", "0.5"} ELSE {"0.5", "0.05"}) /\ pts = <<>> /\ used = <<>>
Visit == Len(pts) < Length /\ \E k \in 1..4 : pts' = Append(pts, k) /\ UNCHANGED <<f, r, used>>
Flag == Len(pts) = Length /\ used = <<>> /\ \E j \in 0..Length - 2 : used' = [i \in 1..Length - 1 |-> i > j] /\ UNCHANGED <<f, r, pts>>
Spec == Init /\ [][Visit \/ Flag]_<<f, r, pts, used>>

Vals == Forced([i \in 1..Len(pts) |-> Grid[pts[i]]])
Gs == Forced([i \in 1..Len(pts) |-> Grad(Model, Vals[i])])
D == <<"1", "2">>
W == Forced(Matrices(Vals, Gs, D, r, used))
Sound == used # <<>> =>
    LET w == W IN
    /\ MClose(MMul(w.b, w.h), MId(2), "1e-6", "1e-6")
    /\ RLt("0", w.b[1][1]) /\ RLt("0", MDet(w.b))
    /\ (w.last > 0) => VClose(MVec(w.b, w.ss[w.last]), w.ys[w.last], "1e-6", "1e-6") /\ VClose(MVec(w.h, w.ys[w.last]), w.ss[w.last], "1e-6", "1e-6")
\* B - Bss'B/s'Bs + yy'/s'y
Textbook(b, s, y) == LET v == Forced(MVec(b, s)) IN MAdd(MSub(b, MScale(RDiv("1", VDot(s, v)), Outer(v, v))), MScale(RDiv("1", VDot(s, y)), Outer(y, y)))
RECURSIVE Book(_, _, _)
Book(b, i, w) == IF i > Len(w.ss) THEN b ELSE Book(IF Accepts(w.ss[i], w.ys[i], b, r, used[i]) THEN Forced(Textbook(b, w.ss[i], w.ys[i])) ELSE b, i + 1, w)
Standard == used # <<>> => LET w == W IN MClose(Book(B0(D), 1, w), w.b, "1e-6", "1e-6")
Reversible == used # <<>> =>
    LET w == W
        a == Leap(Model, "0.02", w.h, Vals[1], <<"0.5", "-1">>, 2)
        b == Leap(Model, "0.02", w.h, a[1], VNeg(a[2]), 2)
    IN VClose(b[1], Vals[1], "1e-6", "1e-6") /\ VClose(VNeg(b[2]), <<"0.5", "-1">>, "1e-6", "1e-6")
Emit == used # <<>> => PrintT("CASE " \o ToJson([f |-> f, r |-> r, pts |-> pts, used |-> used]))
=============================================================================
