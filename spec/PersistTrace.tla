---------------------------- MODULE PersistTrace ----------------------------
EXTENDS TraceKit
VARIABLES l, store, bad
P == INSTANCE Persist WITH None <- "none"
e == Trace[l]
\* store: path -> set of versions the file may hold; a path not in the domain holds nothing
Of(p) == IF p \in DOMAIN store THEN store[p] ELSE {"none"}
Exists(p) == Of(p) # {"none"}
Put(p, s) == [q \in DOMAIN store \cup {p} |-> IF q = p THEN s ELSE store[q]]
MustRefuse == ~e.overwrite /\ "none" \notin Of(e.path)
Clauses ==
    CASE IsAbnormal(e) -> AbnormalClauses(e)
      [] e.ev = "Reset" -> <<>>
      [] e.ev = "Save" ->
          << <<"an existing file is only replaced when overwriting was asked for", MustRefuse => e.outcome \in {"refused", "failed"}>>,
             <<"a save without a fault either completes or is refused because the file exists",
               e.fault = "none" => e.outcome = (IF MustRefuse THEN "refused" ELSE "ok")>>,
             <<"a save is only refused because the file exists",
               e.outcome = "refused" => (~e.overwrite /\ Of(e.path) # {"none"})>> >>
      [] e.ev = "Load" ->
          << <<"loading returns exactly what was last saved; after a failed or interrupted save the old or the new version, complete",
               e.got \in Of(e.path)>> >>
      [] e.ev = "Rejects" -> << <<"loading something that is not a saved dictionary is rejected", e.outcome = "rejected">> >>
      [] e.ev = "Round" -> << <<"loading returns the fields, types, shapes and values that were saved", e.got = e.saved>>,
                              <<"saving does not modify what is saved", e.after = e.saved>> >>
      [] e.ev = "Works" -> << <<"a loaded chain can be used like the saved one", e.ok>> >>
TraceInit == l = 1 /\ store = [p \in {} |-> {}] /\ bad = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ bad' = Keep(bad, Failing(l, e, Clauses))
    /\ store' = CASE e.ev = "Reset" -> [p \in {} |-> {}]
                  [] e.ev = "Save" -> IF e.outcome = "ok" THEN Put(e.path, {e.ver})
                                      ELSE IF e.outcome = "failed" /\ ~MustRefuse THEN Put(e.path, Of(e.path) \cup {e.ver})
                                      ELSE store
                  [] e.ev = "Load" -> Put(e.path, {e.got})
                  [] OTHER -> store
TraceVerdict == Verdict(l, bad)
=============================================================================
