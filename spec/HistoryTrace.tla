---------------------------- MODULE HistoryTrace ----------------------------
(* Histories of builds, changes and runs on real objects, judged by        *)
(* History: the settings are followed here, results are compared whenever  *)
(* the same input of R occurs again, on whatever objects.                  *)
EXTENDS History, TraceKit

VARIABLES l, st, bad
e == Trace[l]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ RClose(a[i], b[i], "1e-4", "1e-5") \/ (RIsNaN(a[i]) /\ RIsNaN(b[i]))
In == Input(st.objects, e.method, e.model, e.args)
RunClauses ==
    << <<"a run gives the result that its settings and arguments gave before", Known(st.known, In) => Same(e.out, st.known[Place(st.known, In)].out)>>,
       <<"settings that matter change the result", \A k \in 1..Len(st.known) : st.known[k].in # In => ~Same(e.out, st.known[k].out)>> >>
Clauses == CASE IsAbnormal(e) -> AbnormalClauses(e)
             [] e.ev = "Run" -> RunClauses
             [] e.ev = "Process" -> << <<"another process gives the same result", Same(e.out, e.other)>> >>
             [] OTHER -> <<>>
TraceInit == l = 1 /\ st = [objects |-> <<>>, known |-> <<>>] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ st' = CASE e.ev = "World" -> [objects |-> <<>>, known |-> <<>>]
               [] e.ev = "Build" -> [st EXCEPT !.objects = NewObject(st.objects, e.id, e.settings)]
               [] e.ev = "Set" -> [st EXCEPT !.objects = Change(st.objects, e.id, e.field, e.value)]
               [] e.ev = "Run" -> [st EXCEPT !.known = Learn(st.known, In, e.out)]
               [] OTHER -> st
TraceVerdict == Verdict(l, bad)
=============================================================================
