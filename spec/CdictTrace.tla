----------------------------- MODULE CdictTrace -----------------------------
EXTENDS Cdict, TraceKit
VARIABLES l, cur, bad
e == Trace[l]
Clauses ==
    CASE IsAbnormal(e) -> AbnormalClauses(e)
      [] e.ev = "New" -> << <<"a dictionary holds what it was built from", e.now = e.d>> >>
      [] e.ev = "Op" -> << << "the result of [" \o e.op.op \o "] is what the operation means row by row", e.after = Apply(cur, e.op)>>,
                           <<"operations leave the dictionary they are applied to unchanged", e.original = cur>>,
                           <<"operations leave their arguments unchanged", e.argSame>> >>
      [] e.ev = "Keys" -> << <<"iteration, key listing and lookup agree with the contents",
                               e.keys = [i \in 1..Len(cur.f) |-> cur.f[i][1]] /\ e.iter = e.keys /\ e.lookup /\ e.empty = (cur.f = <<>>)>> >>
      [] e.ev = "Chain" -> << <<"stacked states of a run can be split and joined again without change", e.same>> >>
TraceInit == l = 1 /\ cur = Dict(<<>>) /\ bad = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ bad' = Keep(bad, Failing(l, e, Clauses))
             /\ cur' = CASE e.ev = "New" -> e.d [] e.ev = "Op" -> e.after [] OTHER -> cur
TraceVerdict == Verdict(l, bad)
=============================================================================
