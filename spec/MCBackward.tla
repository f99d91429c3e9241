----------------------------- MODULE MCBackward -----------------------------
(* Two-state models.  With the exact filtering weights on both states, the *)
(* product of the backward draws is the posterior of the whole path; and a *)
(* draw by rejection with any limit has the law of a full draw.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Real

CONSTANTS T, Limits, Models
VARIABLES model, ys, path, limit, bound

States == {1, 2}
Tables == << [p0 |-> <<"0.5","0.5">>, p |-> << <<"0.75","0.25">>, <<"0.25","0.75">> >>, g |-> << <<"0.75","0.25">>, <<"0.1","0.9">> >>],
             [p0 |-> <<"0.25","0.75">>, p |-> << <<"0.5","0.5">>, <<"1","0">> >>, g |-> << <<"1","0">>, <<"0.25","0.75">> >>] >>
m == Tables[model]
RECURSIVE Filt(_)                       \* unnormalised filtering weights at time t
Filt(t) == [x \in States |-> RMul(m.g[x][ys[t]], IF t = 1 THEN m.p0[x] ELSE LET f == Filt(t - 1) IN RAdd(RMul(f[1], m.p[1][x]), RMul(f[2], m.p[2][x])))]
Norm(f) == [x \in States |-> RDiv(f[x], RAdd(f[1], f[2]))]
Law(t, z) == Norm([x \in States |-> RMul(Norm(Filt(t))[x], m.p[x][z])])
\* law of a draw that proposes from the filter at most limit times
RECURSIVE ByRejection(_, _, _)
ByRejection(t, z, k) ==
    LET f == Norm(Filt(t))
        acc(x) == RMul(f[x], RDiv(m.p[x][z], bound))
        missed == RSub("1", RAdd(acc(1), acc(2)))
        rest == IF k = 0 THEN Law(t, z) ELSE ByRejection(t, z, k - 1)
    IN  IF k = 0 THEN rest ELSE [x \in States |-> RAdd(acc(x), RMul(missed, rest[x]))]

Possible(t) == RLt("0", RAdd(Filt(t)[1], Filt(t)[2]))
Init == /\ model \in Models /\ ys \in [1..T -> {1, 2}] /\ limit \in Limits /\ bound \in {"1", "1.7"}
        /\ \A t \in 1..T : Possible(t)
        /\ \E x \in States : RLt("0", Filt(T)[x]) /\ path = <<x>>
Back == /\ Len(path) < T
        /\ LET t == T - Len(path) IN \E x \in States : RLt("0", Law(t, path[1])[x]) /\ path' = <<x>> \o path
        /\ UNCHANGED <<model, ys, limit, bound>>
Spec == Init /\ [][Back]_<<model, ys, path, limit, bound>>

RECURSIVE Drawn(_)                      \* probability of drawing the path
Drawn(t) == IF t = T THEN Norm(Filt(T))[path[T]] ELSE RMul(Law(t, path[t + 1])[path[t]], Drawn(t + 1))
RECURSIVE Joint(_, _)
Joint(p, t) == RMul(m.g[p[t]][ys[t]], IF t = 1 THEN m.p0[p[1]] ELSE RMul(m.p[p[t-1]][p[t]], Joint(p, t - 1)))
Paths == SetToSeq([1..T -> States])
Evidence == VSum([k \in 1..Len(Paths) |-> Joint(Paths[k], T)])
ExactPosterior == Len(path) = T => RClose(Drawn(1), RDiv(Joint(path, T), Evidence), "1e-9", "1e-12")
SameLaw == Len(path) < T =>
    LET t == T - Len(path) IN \A x \in States : RClose(ByRejection(t, path[1], limit)[x], Law(t, path[1])[x], "1e-9", "1e-12")
Emit == Len(path) = 1 => PrintT("CASE " \o ToJson([model |-> model, ys |-> ys, limit |-> limit, bound |-> bound]))
=============================================================================
