------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace file is a sequence of *)
(* JSON objects; every object has a field `case' (the execution it belongs *)
(* to) and a field `ev' (which action of the specification it claims to    *)
(* be).  Trace verdicts are total: an observation that no action explains  *)
(* is consumed too, and the names of the clauses it violates are kept.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Real

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

(* A clause is <<name, truth value>> *)
Failing(i, e, clauses) ==
    LET f == SelectSeq(clauses, LAMBDA c : ~c[2])
    IN  [k \in 1..Len(f) |-> [line |-> i, case |-> e.case, ev |-> e.ev, clause |-> f[k][1]]]

(* The real code raised an exception, hung or returned something that is   *)
(* not even of the right shape: no action of any specification does that.  *)
AbnormalClauses(e) == << <<e.what, FALSE>> >>

IsAbnormal(e) == e.ev = "Abnormal"

Keep(bad, more) == IF Len(bad) > 60 THEN bad ELSE bad \o more

Verdict(l, bad) ==
    l > Len(Trace) => PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad]))

Rng(s) == { s[i] : i \in 1..Len(s) }
Has(r, f) == f \in DOMAIN r
=============================================================================
