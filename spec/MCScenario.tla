---------------------------- MODULE MCScenario ----------------------------
(* Histories of modifications and evaluations.  The gradient functions are *)
(* derived objects that have to be rebuilt whenever what they derive from  *)
(* is replaced; the model shows that rebuilding on every replacement of a  *)
(* potential suffices, and prints every history for replay.                *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Depth
VARIABLES cur, built, hist

Values == {1, 2}
Ops == { [op |-> o, v |-> v] : o \in {"temperature", "prior", "likelihood", "centre", "shape"}, v \in Values }
Init == /\ cur = [temperature |-> 0, prior |-> 0, likelihood |-> 0, centre |-> 0, shape |-> 0]
        /\ built = cur /\ hist = <<>>
Apply(o) == /\ cur' = [cur EXCEPT ![o.op] = o.v]
            \* temperature is read at evaluation; everything else triggers a rebuild of the derived functions
            /\ built' = IF o.op = "temperature" THEN [built EXCEPT !.temperature = o.v] ELSE cur'
            /\ hist' = Append(hist, o)
Next == Len(hist) < Depth /\ \E o \in Ops : Apply(o)
Spec == Init /\ [][Next]_<<cur, built, hist>>
DerivedFollows == built = cur
Emit == Len(hist) = Depth => PrintT("CASE " \o ToJson(hist))
=============================================================================
