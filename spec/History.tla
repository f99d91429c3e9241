------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Objects with settings, and runs.  A run takes a method, a model and     *)
(* arguments (length, key, start); what it returns is some function        *)
(*     R(settings of the method, settings of the model, arguments)         *)
(* and nothing else: not the identity of the objects, not what either of   *)
(* them was used for before.  R itself is not specified here (the other    *)
(* modules do that); it is learnt from the runs seen.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* settings: a function from object names to settings; a setting is a function from field names to values
NewObject(objects, id, settings) == [o \in DOMAIN objects \union {id} |-> IF o = id THEN settings ELSE objects[o]]
Change(objects, id, field, value) == [objects EXCEPT ![id][field] = value]
Input(objects, method, model, args) == [method |-> objects[method], model |-> objects[model], args |-> args]

\* known: a sequence of [in, out]: the graph of R as far as it is known
Known(known, in) == \E k \in 1..Len(known) : known[k].in = in
Place(known, in) == CHOOSE k \in 1..Len(known) : known[k].in = in
Learn(known, in, out) == IF Known(known, in) THEN known ELSE Append(known, [in |-> in, out |-> out])
=============================================================================
