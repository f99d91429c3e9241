---------------------------- MODULE MCInvariance ----------------------------
(* The refreshed, reversed and corrected walk leaves every small target     *)
(* invariant in each of its phases (exact integer masses); the tempered     *)
(* ensemble of two particles on two sites has unbiased evidence under every *)
(* resampling rule (all outcomes enumerated).                               *)
EXTENDS Invariance

CONSTANTS MaxSites, Rate
VARIABLES w, ring, new, mass, phase, steps

K == 64 * Rate        \* makes every mass below divisible
Weights == { 0, 1, 2, 4 }
Init == /\ \E n \in 2..MaxSites : w \in [1..n -> Weights]
        /\ \E i \in 1..Len(w) : w[i] > 0
        /\ ring \in BOOLEAN /\ new \in 0..Rate /\ mass = Target(w, K) /\ phase = "refresh" /\ steps = 0
Next == /\ steps < 3
        /\ \/ phase = "refresh" /\ mass' = Refreshed(w, mass, new, Rate) /\ phase' = "move" /\ steps' = steps
           \/ phase = "move" /\ mass' = Moved(w, ring, mass) /\ phase' = "refresh" /\ steps' = steps + 1
        /\ UNCHANGED <<w, ring, new>>
Spec == Init /\ [][Next]_<<w, ring, new, mass, phase, steps>>
TargetKept == mass = Target(w, K)

\* The target is not kept when a rejection also reverses the momentum ... but no refreshment hides it: not every variant is invariant.
NoReversal(ww, m) == [j \in Sites(ww) |-> [p \in Dirs |->
        m[j][p] - Flow(ww, FALSE, m, j, p)
        + SumOver([i \in Sites(ww) |-> IF Step(ww, FALSE, i, p) = j THEN Flow(ww, FALSE, m, i, p) ELSE 0], Sites(ww))]]
ASSUME NoReversal(<<1, 2, 4>>, Target(<<1, 2, 4>>, 64)) # Target(<<1, 2, 4>>, 64)

(* Evidence: two particles, prior uniform on two sites, factors f[step][site].  Between reweightings: resampling when the      *)
(* effective sample size is at most half of the particles (rule "low"), always, or never; then a move that keeps the target.  *)
Half == "0.5"
Pairs == { <<a, b>> : a \in 1..2, b \in 1..2 }
Low(u) == RLe(RSq(RAdd(u[1], u[2])), RMul("1.2", RAdd(RSq(u[1]), RSq(u[2]))))
RECURSIVE SumR(_, _)
SumR(F(_), s) == IF s = {} THEN "0" ELSE LET x == CHOOSE y \in s : TRUE IN RAdd(F(x), SumR(F, s \ {x}))
Pi(f, k, i) == IF k = 0 THEN "1" ELSE RMul(f[1][i], IF k = 1 THEN "1" ELSE f[2][i])
Stay(f, k, i, j) ==   \* propose the other site with probability one half, Metropolis at step k
    LET r == RMin("1", RDiv(Pi(f, k, 3 - i), Pi(f, k, i))) IN IF i = j THEN RSub("1", RMul(Half, r)) ELSE RMul(Half, r)
Mean2(u) == RMul(Half, RAdd(u[1], u[2]))
RECURSIVE Expected(_, _, _, _, _, _)
\* expectation of (evidence estimate) * (weighted share of site g), from particles x with weights u and estimate z after k factors
Expected(f, rule, g, k, x, u) ==
    LET fin == RMul(Mean2(u), RDiv(RAdd(IF x[1] = g THEN u[1] ELSE "0", IF x[2] = g THEN u[2] ELSE "0"), RAdd(u[1], u[2])))
        res == rule = "always" \/ (rule = "low" /\ Low(u))
        one(y) == LET mv(v) == RMul(RMul(Stay(f, k, y[1], v[1]), Stay(f, k, y[2], v[2])),
                                   IF res THEN RMul(Mean2(u), Expected(f, rule, g, k + 1, v, <<f[k+1][v[1]], f[k+1][v[2]]>>))
                                          ELSE Expected(f, rule, g, k + 1, v, <<RMul(u[1], f[k+1][v[1]]), RMul(u[2], f[k+1][v[2]])>>))
                  IN SumR(mv, Pairs)
        share(a) == RDiv(u[a], RAdd(u[1], u[2]))
        pick(a) == RMul(RMul(share(a[1]), share(a[2])), one(<<x[a[1]], x[a[2]]>>))
    IN  IF k = 2 THEN fin ELSE IF res THEN SumR(pick, Pairs) ELSE one(x)
Total(f, rule, g) == LET st(x) == RMul("0.25", Expected(f, rule, g, 1, x, <<f[1][x[1]], f[1][x[2]]>>)) IN SumR(st, Pairs)
Factors == { <<"1", "1">>, <<"1", "0.2">>, <<"0.5", "2">>, <<"3", "0.01">> }
ASSUME \A a \in Factors, b \in Factors, rule \in {"always", "low", "never"}, g \in 1..2 :
         RClose(Total(<<a, b>>, rule, g), RMul(Half, RMul(a[g], b[g])), "1e-9", "1e-12")
=============================================================================
