------------------------------- MODULE MCJoint -------------------------------
(* A model generates a trajectory and its observations step by step; the   *)
(* joint potential is minus the log probability of what was generated, and *)
(* all trajectories together have probability one.  Parameters may be      *)
(* changed beforehand; the histories are replayed on the real models.      *)
EXTENDS SSM, SMC, SequencesExt, Json

CONSTANTS TMax, Depth
VARIABLES hist, which, xs, ys, prob

Ops == { [op |-> o, v |-> v] : o \in {"mean", "cov", "f", "q", "h", "r"}, v \in {1, 2} }
Tables == << [kind |-> "lattice", p0 |-> <<"0.5","0.5">>, p |-> << <<"0.75","0.25">>, <<"0.25","0.75">> >>, g |-> << <<"0.75","0.25">>, <<"0.1","0.9">> >>],
             [kind |-> "lattice", p0 |-> <<"0.25","0.75">>, p |-> << <<"0.5","0.5">>, <<"0.9","0.1">> >>, g |-> << <<"0.9","0.1">>, <<"0.25","0.75">> >>] >>
m == [kind |-> "lattice", p0 |-> Tables[which.p0].p0, p |-> Tables[which.p].p, g |-> Tables[which.g].g]
S(i) == << ToString(i) >>
Ts == [k \in 1..TMax |-> ToString(k)]
Init == hist = << >> /\ which = [p0 |-> 1, p |-> 1, g |-> 1] /\ xs = << >> /\ ys = << >> /\ prob = "1"
Entry(o) == CASE o \in {"mean", "cov"} -> "p0" [] o \in {"f", "q"} -> "p" [] OTHER -> "g"
Change == /\ xs = << >> /\ Len(hist) < Depth
          /\ \E o \in Ops : hist' = Append(hist, o) /\ which' = [which EXCEPT ![Entry(o.op)] = o.v]
          /\ UNCHANGED <<xs, ys, prob>>
Move == /\ Len(xs) = Len(ys) /\ Len(xs) < TMax /\ Len(hist) = Depth /\ hist[1].v = 1   \* one representative per model suffices
        /\ \E i \in {1, 2} : xs' = Append(xs, S(i)) /\ prob' = RMul(prob, IF xs = << >> THEN m.p0[i] ELSE m.p[At(xs[Len(xs)])][i])
        /\ UNCHANGED <<hist, which, ys>>
Observe == /\ Len(xs) > Len(ys)
           /\ \E i \in {1, 2} : ys' = Append(ys, S(i)) /\ prob' = RMul(prob, m.g[At(xs[Len(xs)])][i])
           /\ UNCHANGED <<hist, which, xs>>
Spec == Init /\ [][Change \/ Move \/ Observe]_<<hist, which, xs, ys, prob>>
PotentialIsProbability == (xs # << >> /\ Len(xs) = Len(ys)) => RClose(RExp(RNeg(JointPot(m, xs, ys, SubSeq(Ts, 1, Len(xs))))), prob, "1e-9", "0")
Paths(T) == [1..T -> {1, 2}]
TotalOne == xs = << >> => \A T \in 1..2 :
    LET all == SetToSeq(Paths(T) \X Paths(T))
    IN  RClose(VSum([i \in 1..Len(all) |-> RExp(RNeg(JointPot(m, [k \in 1..T |-> S(all[i][1][k])], [k \in 1..T |-> S(all[i][2][k])], SubSeq(Ts, 1, T))))]), "1", "1e-9", "0")
Emit == (Len(hist) = Depth /\ xs = << >>) => PrintT("CASE " \o ToJson(hist))
=============================================================================
