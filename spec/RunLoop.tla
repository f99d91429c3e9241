------------------------------ MODULE RunLoop ------------------------------
(***************************************************************************)
(* The sampling loop behind every run: start from an initial state, apply  *)
(* the sampler's transition until its termination criterion holds or its   *)
(* iteration budget is spent, and return the stacked states.               *)
(*                                                                         *)
(* A sampler is abstracted to a finite table: the next value depends on    *)
(* the current value and on hidden memory (the `extra' a sampler threads   *)
(* along); stop[v] says whether the termination criterion holds in v.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* cfg: [init, table (table[v+1][mem+1]), stop (stop[v+1]), maxIter] *)
Fresh == [phase |-> "new", v |-> 0, mem |-> 0, it |-> 0, chain |-> <<>>]

Terminated(cfg, s) == s.it >= cfg.maxIter \/ cfg.stop[s.v + 1]

StartupEnabled(s) == s.phase = "new"
Startup(cfg, s) == [phase |-> "loop", v |-> cfg.init, mem |-> 0, it |-> 0, chain |-> <<cfg.init>>]

UpdateEnabled(cfg, s) == s.phase = "loop" /\ ~Terminated(cfg, s)
Update(cfg, s) ==
    LET w == cfg.table[s.v + 1][s.mem + 1]
    IN  [phase |-> "loop", v |-> w, mem |-> s.v, it |-> s.it + 1, chain |-> Append(s.chain, w)]

ReturnEnabled(cfg, s) == s.phase = "loop" /\ Terminated(cfg, s)
Return(cfg, s) == [s EXCEPT !.phase = "done"]

(* Properties, checked exhaustively in MCRunLoop and on every replay *)
NeverTooLong(cfg, s) == Len(s.chain) <= cfg.maxIter + 1
NothingAfterStop(cfg, s) == \A i \in 1..Len(s.chain) - 1 : ~cfg.stop[s.chain[i] + 1]
StartsAtInit(cfg, s) == s.phase # "new" => s.chain[1] = cfg.init
StepsFollowTable(cfg, s) ==
    \A i \in 2..Len(s.chain) :
        s.chain[i] = cfg.table[s.chain[i-1] + 1][(IF i = 2 THEN 0 ELSE s.chain[i-2]) + 1]
DoneMeansTerminated(cfg, s) ==
    s.phase = "done" => Len(s.chain) = cfg.maxIter + 1 \/ cfg.stop[s.chain[Len(s.chain)] + 1]
=============================================================================
