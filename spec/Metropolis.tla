----------------------------- MODULE Metropolis -----------------------------
(***************************************************************************)
(* The accept/reject correction.  One transition:                          *)
(*   Propose   (a whole proposed state next to the state before it)        *)
(*   Accept    with probability alpha: the whole proposed state            *)
(*   Reject    with probability 1-alpha: the whole state before            *)
(* Finite targets: pot[i] is the potential of site i in units of ln 2 (Inf *)
(* for impossible sites) and q[i][j] the integer weight of proposing j     *)
(* from i, each row summing to Q, so that every probability is rational.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Inf == 99
Sites(cfg) == 1..Len(cfg.pot)
RowSum(cfg, i) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE cfg.q[i][k] + S(k-1) IN S(Len(cfg.pot))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Top == 8
Weight(cfg, i) == IF cfg.pot[i] = Inf THEN 0 ELSE Pow2(Top - cfg.pot[i])   \* unnormalised target probability

(* Acceptance probability as <<numerator, denominator>>.  pi(j) q(j,i) over *)
(* pi(i) q(i,j), at most one; leaving an impossible site is certain, and an *)
(* undefined ratio (both impossible) counts as zero.                        *)
Alpha(cfg, i, j) ==
    LET num == Weight(cfg, j) * cfg.q[j][i]
        den == Weight(cfg, i) * cfg.q[i][j]
    IN  IF cfg.pot[j] = Inf \/ cfg.q[j][i] = 0 THEN <<0, 1>>
        ELSE IF cfg.pot[i] = Inf THEN <<1, 1>>
        ELSE IF num >= den THEN <<1, 1>> ELSE <<num, den>>

(* s: [phase, site, tag, prop (site or 0), ptag]; tag stands for everything *)
(* else a state carries: it must move together with the site                *)
Fresh(i) == [phase |-> "at", site |-> i, tag |-> i, prop |-> 0, ptag |-> 0]
ProposeEnabled(cfg, s, j) == s.phase = "at" /\ cfg.q[s.site][j] > 0
Propose(cfg, s, j) == [s EXCEPT !.phase = "proposed", !.prop = j, !.ptag = j]
AcceptEnabled(cfg, s) == s.phase = "proposed" /\ Alpha(cfg, s.site, s.prop)[1] > 0
Accept(s) == [phase |-> "at", site |-> s.prop, tag |-> s.ptag, prop |-> 0, ptag |-> 0]
RejectEnabled(cfg, s) == s.phase = "proposed" /\ Alpha(cfg, s.site, s.prop)[1] < Alpha(cfg, s.site, s.prop)[2]
Reject(s) == [s EXCEPT !.phase = "at", !.prop = 0, !.ptag = 0]

(* Detailed balance, cleared of denominators *)
DetailedBalance(cfg) ==
    \A i \in Sites(cfg), j \in Sites(cfg) :
        LET a == Alpha(cfg, i, j)  b == Alpha(cfg, j, i)
        IN  Weight(cfg, i) * cfg.q[i][j] * a[1] * b[2] = Weight(cfg, j) * cfg.q[j][i] * b[1] * a[2]
(* The target is invariant: pi(j) = sum_i pi(i) K(i,j), cleared of Q and alpha's denominators by exhaustive balance of flows *)
WholeStates(s) == s.tag = s.site /\ (s.phase = "proposed" => s.ptag = s.prop)
=============================================================================
