------------------------------ MODULE MCFilter ------------------------------
(* Particle filters on two-state models, N particles, every random         *)
(* outcome of every step.  The weighted particles estimate the             *)
(* unnormalised filtering distribution: whatever the proposal and whenever *)
(* resampling happens, a step preserves it in expectation.  The            *)
(* expectation is the sum over all branches of the step.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Real

CONSTANTS N, Steps, Models
VARIABLES cfg, parts, k, last

States == {1, 2}
Tables == << [p |-> << <<"0.75","0.25">>, <<"0.25","0.75">> >>, g |-> << <<"0.75","0.25">>, <<"0.1","0.9">> >>],
             [p |-> << <<"0.5","0.5">>, <<"1","0">> >>, g |-> << <<"1","0">>, <<"0.25","0.75">> >>] >>
Configs == [model : Models, kind : {"bootstrap", "guided", "optimal"}, thr : {"0", "0.75", "1", "1.1"}, ys : [1..Steps -> {1, 2}]]

P(x, z) == Tables[cfg.model].p[x][z]
G(z, y) == Tables[cfg.model].g[z][y]
Total(x, y) == RAdd(RMul(P(x, 1), G(1, y)), RMul(P(x, 2), G(2, y)))
Q(x, z, y) == CASE cfg.kind = "bootstrap" -> P(x, z)
                [] cfg.kind = "guided" -> "0.5"
                [] OTHER -> IF REq(Total(x, y), "0") THEN P(x, z) ELSE RDiv(RMul(P(x, z), G(z, y)), Total(x, y))
Inc(x, z, y) == CASE cfg.kind = "bootstrap" -> G(z, y)
                  [] cfg.kind = "guided" -> RDiv(RMul(P(x, z), G(z, y)), "0.5")
                  [] OTHER -> Total(x, y)
Ws(ps) == [i \in 1..N |-> ps[i].w]
Due(ps) == RLt(RDiv(RSq(VSum(Ws(ps))), VSumSq(Ws(ps))), RMul(cfg.thr, N))

Init == /\ cfg \in Configs /\ k = 0 /\ last = [due |-> FALSE]
        /\ parts \in [1..N -> [x : States, w : {"0", "1", "2"}]] /\ RLt("0", VSum(Ws(parts)))
Ancestors(ps) == IF Due(ps) THEN [1..N -> 1..N] ELSE { [i \in 1..N |-> i] }
Branch(ps, a, z, y) == [i \in 1..N |-> [x |-> z[i], w |-> RMul(IF Due(ps) THEN "1" ELSE ps[i].w, Inc(ps[a[i]].x, z[i], y))]]
Prod(s) == FoldLeft(RMul, "1", s)
Prob(ps, a, z, y) ==
    RMul(IF Due(ps) THEN Prod([i \in 1..N |-> RDiv(ps[a[i]].w, VSum(Ws(ps)))]) ELSE "1", Prod([i \in 1..N |-> Q(ps[a[i]].x, z[i], y)]))
Step == /\ k < Steps /\ k' = k + 1 /\ UNCHANGED cfg
        /\ \E a \in Ancestors(parts), z \in [1..N -> States] :
              /\ RLt("0", Prob(parts, a, z, cfg.ys[k + 1]))
              /\ parts' = Branch(parts, a, z, cfg.ys[k + 1])
              /\ RLt("0", VSum(Ws(parts')))
              /\ last' = [due |-> Due(parts), before |-> parts, a |-> a]
Spec == Init /\ [][Step]_<<cfg, parts, k, last>>

\* sums over finite sets through sequences
Expected(ps, y, z0) ==
    LET bs == SetToSeq(Ancestors(ps) \X [1..N -> States])
        scale == IF Due(ps) THEN RDiv(VSum(Ws(ps)), N) ELSE "1"
    IN  VSum([j \in 1..Len(bs) |->
            LET a == bs[j][1]  z == bs[j][2]  new == Branch(ps, a, z, y)
            IN  RMul(Prob(ps, a, z, y), RMul(scale, RDiv(VSum([i \in 1..N |-> IF z[i] = z0 THEN new[i].w ELSE "0"]), N)))])
Truth(ps, y, z0) == RDiv(VSum([i \in 1..N |-> RMul(ps[i].w, RMul(P(ps[i].x, z0), G(z0, y)))]), N)
Unbiased == k < Steps => \A z0 \in States : RClose(Expected(parts, cfg.ys[k + 1], z0), Truth(parts, cfg.ys[k + 1], z0), "1e-9", "1e-12")
Survivors == last.due => \A i \in 1..N : RLt("0", last.before[last.a[i]].w)
Emit == (k = 0 /\ \A i \in 1..N : parts[i].x = 1 /\ parts[i].w = "1") => PrintT("CASE " \o ToJson([kind |-> cfg.kind, thr |-> cfg.thr, ys |-> cfg.ys, model |-> cfg.model]))
=============================================================================
