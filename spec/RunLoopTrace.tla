---------------------------- MODULE RunLoopTrace ----------------------------
(* Traces of the real run loop, judged by RunLoop's actions, and relations *)
(* between whole runs of the shipped samplers.                             *)
EXTENDS RunLoop, TraceKit

VARIABLES l, st, bad

e == Trace[l]
Blank == [cfg |-> [init |-> 0, table |-> << <<0,0>>, <<0,0>> >>, stop |-> <<FALSE,FALSE>>, maxIter |-> 0], s |-> Fresh]

\* ---- actions of the loop, one event each
StartClauses == << <<"the first state of the chain is the initial state", e.v = e.cfg.init>> >>
StepClauses ==
    << <<"no state is recorded after the termination criterion held or the iterations ran out",
         UpdateEnabled(st.cfg, st.s)>>,
       <<"each state is the sampler's transition applied to the previous state",
         st.s.phase = "loop" => e.v = Update(st.cfg, st.s).v>>,
       <<"what the sampler carries along is threaded through every transition",
         st.s.phase = "loop" => e.mem = st.s.v>>,
       <<"the iteration counter grows by one per transition",
         st.s.phase = "loop" => e.it = st.s.it + 1>> >>
ReturnClauses ==
    << <<"the loop only returns once the sampler terminated", ReturnEnabled(st.cfg, st.s)>>,
       <<"every recorded field has one entry per state", \A k \in Rng(e.lens) : k = Len(st.s.chain)>> >>

\* ---- relations between runs
Tol(a, b) == RClose(a, b, "1e-5", "1e-6")
SameRow(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Tol(u[i], v[i]) \/ (RIsNaN(u[i]) /\ RIsNaN(v[i]))
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : SameRow(a[i], b[i])
Equal(a, b) == Len(a) = Len(b) /\ Prefix(a, b)
RunClauses ==
    << <<"the chain has exactly the requested number of states", e.len = e.expected>>,
       <<"every recorded field has one entry per state", \A k \in Rng(e.lens) : k = e.len>>,
       <<"the chain records the sampler that produced it", e.sampler = e.samplerExpected>>,
       <<"the chain records the scenario it targets", e.scenario = e.scenarioExpected>>,
       <<"the recorded run time is a finite non-negative number", RIsFinite(e.time) /\ RLe("0", e.time)>> >>
PrefixClauses ==
    << <<"a longer run from the same key starts with the shorter run", \A f \in DOMAIN e.a : f \in DOMAIN e.b /\ Prefix(e.a[f], e.b[f])>> >>
EqualClauses ==
    << << e.why, DOMAIN e.a = DOMAIN e.b /\ \A f \in DOMAIN e.a : Equal(e.a[f], e.b[f])>> >>
FirstClauses ==
    << <<"the first state of the chain is the supplied initial state", SameRow(e.first, e.supplied)>> >>
UnchangedClauses ==
    << <<"objects supplied by the caller are not modified", e.before = e.after>> >>
ParamClauses ==
    << <<"the recorded parameters are those the run used", Tol(e.recorded, e.used)>> >>
StopClauses ==
    \* a sampler that stops when its recorded flag is set
    << <<"no state before the last satisfies the termination criterion", \A i \in 1..Len(e.flags) - 1 : ~e.flags[i]>>,
       <<"the run ends at the first terminated state or when the iterations ran out",
         Len(e.flags) = e.budget \/ e.flags[Len(e.flags)]>>,
       <<"the run never exceeds its iterations", Len(e.flags) <= e.budget>> >>

Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Start"  -> StartClauses
             [] e.ev = "Step"   -> StepClauses
             [] e.ev = "Return" -> ReturnClauses
             [] e.ev = "Run"    -> RunClauses
             [] e.ev = "Prefix" -> PrefixClauses
             [] e.ev = "Equal"  -> EqualClauses
             [] e.ev = "First"  -> FirstClauses
             [] e.ev = "Unchanged" -> UnchangedClauses
             [] e.ev = "Param"  -> ParamClauses
             [] e.ev = "Stops"  -> StopClauses

TraceInit == l = 1 /\ st = Blank /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "Start" -> [cfg |-> e.cfg, s |-> [Startup(e.cfg, Fresh) EXCEPT !.v = e.v]]
               [] e.ev = "Step"  -> [st EXCEPT !.s = [phase |-> "loop", v |-> e.v, mem |-> e.mem, it |-> st.s.it + 1,
                                                      chain |-> Append(st.s.chain, e.v)]]
               [] e.ev = "Return" -> Blank
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
