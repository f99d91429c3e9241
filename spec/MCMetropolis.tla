---------------------------- MODULE MCMetropolis ----------------------------
(* All targets on three sites with potentials 0..MaxPot or infinite, and   *)
(* five proposal matrices, symmetric and not.                              *)
EXTENDS Metropolis, TLC, Json

CONSTANT MaxPot
VARIABLES cfg, s, start

Pots == (0..MaxPot) \cup {Inf}
Proposals == { << <<1,1,2>>, <<1,2,1>>, <<2,1,1>> >>,    \* symmetric
               << <<0,2,2>>, <<1,2,1>>, <<3,1,0>> >>,    \* asymmetric
               << <<1,3,0>>, <<1,0,3>>, <<0,1,3>> >>,    \* neighbours only, drifting up
               << <<2,1,1>>, <<2,1,1>>, <<2,1,1>> >>,    \* independent of the current site
               << <<0,4,0>>, <<0,0,4>>, <<4,0,0>> >> }   \* irreversible: the reverse is never proposed
Configs == { c \in [pot : [1..3 -> Pots], q : Proposals] : \E i \in 1..3 : c.pot[i] # Inf }

Init == cfg \in Configs /\ start \in 1..3 /\ s = Fresh(start)
Next == /\ UNCHANGED <<cfg, start>>
        /\ \/ \E j \in 1..3 : ProposeEnabled(cfg, s, j) /\ s' = Propose(cfg, s, j)
           \/ AcceptEnabled(cfg, s) /\ s' = Accept(s)
           \/ RejectEnabled(cfg, s) /\ s' = Reject(s)
Spec == Init /\ [][Next]_<<cfg, s, start>>

Balanced == DetailedBalance(cfg)
Whole == WholeStates(s)
NeverImpossible == cfg.pot[start] # Inf => cfg.pot[s.site] # Inf
AlphaIsProbability == s.phase = "proposed" => LET a == Alpha(cfg, s.site, s.prop) IN a[2] > 0 /\ a[1] >= 0 /\ a[1] <= a[2]
NotStuck == s.phase = "proposed" => AcceptEnabled(cfg, s) \/ RejectEnabled(cfg, s)
Emit == (s = Fresh(start)) => PrintT("CASE " \o ToJson([pot |-> cfg.pot, q |-> cfg.q, start |-> start]))
=============================================================================
