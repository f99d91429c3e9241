----------------------------- MODULE MCHistory -----------------------------
(* A program that keeps what it compiled for a run and uses it again.      *)
(* Compiled code holds the values that the settings in `captured' had when *)
(* it was compiled; it is used again when the settings in `keyed' (and the *)
(* object identities) agree.  Results depend on the settings alone in all  *)
(* histories iff every captured setting is also keyed: the histories that  *)
(* show the difference are the ones replayed on the real objects.          *)
EXTENDS History, FiniteSets, Json

CONSTANT Length, Replayed
VARIABLES objects, captured, keyed, cache, last, hist
Fields == {"a", "b", "m"}
Zeroes == [f \in Fields |-> 0]
\* the method has fields a, b; models 1 and 2 have a field m
Settings(o, model) == [a |-> o["s"]["a"], b |-> o["s"]["b"], m |-> o[model]["m"]]
Init == /\ objects = [o \in {"s", "m1", "m2"} |-> IF o = "s" THEN [a |-> 0, b |-> 0] ELSE IF o = "m1" THEN [m |-> 0] ELSE [m |-> 2]]
        /\ captured \in SUBSET Fields /\ keyed \in SUBSET Fields
        /\ cache = {} /\ last = [want |-> Zeroes, got |-> Zeroes] /\ hist = <<>>
Compiled(o, model) == [f \in captured |-> Settings(o, model)[f]]
Key(o, model, args) == [model |-> model, args |-> args, at |-> [f \in keyed |-> Settings(o, model)[f]]]
Execute(o, model, args) ==
    LET k == Key(o, model, args)
        hit == \E c \in cache : c.key = k
        code == IF hit THEN (CHOOSE c \in cache : c.key = k).code ELSE Compiled(o, model)
    IN /\ cache' = IF hit THEN cache ELSE cache \union {[key |-> k, code |-> code]}
       /\ last' = [want |-> Settings(o, model), got |-> [f \in Fields |-> IF f \in captured THEN code[f] ELSE Settings(o, model)[f]]]
Flip(v) == 1 - v
Act(what) ==
    /\ hist' = Append(hist, what)
    /\ UNCHANGED <<captured, keyed>>
    /\ CASE what = "run" -> Execute(objects, "m1", 0) /\ UNCHANGED objects
         [] what = "other args" -> Execute(objects, "m1", 1) /\ UNCHANGED objects
         [] what = "other model" -> Execute(objects, "m2", 0) /\ UNCHANGED objects
         [] what = "set a" -> objects' = Change(objects, "s", "a", Flip(objects["s"]["a"])) /\ UNCHANGED <<cache, last>>
         [] what = "set b" -> objects' = Change(objects, "s", "b", Flip(objects["s"]["b"])) /\ UNCHANGED <<cache, last>>
         [] what = "set m" -> objects' = Change(objects, "m1", "m", Flip(objects["m1"]["m"])) /\ UNCHANGED <<cache, last>>
         \* settings given with a run stay on the method
         [] what = "run with a" -> LET o == Change(objects, "s", "a", Flip(objects["s"]["a"])) IN Execute(o, "m1", 0) /\ objects' = o
Actions == {"run", "other args", "other model", "set a", "set b", "set m", "run with a"}
Next == Len(hist) < Length /\ \E w \in Actions : Act(w)
Spec == Init /\ [][Next]_<<objects, captured, keyed, cache, last, hist>>

Fresh == last.want = last.got
Discipline == captured \subseteq keyed => Fresh
\* and every breach of the discipline is shown by some history of this length
Broken == Fresh \/ TLCSet(1, TLCGet(1) \union {<<captured, keyed>>})
Runs == {k \in 1..Len(hist) : hist[k] \in {"run", "other args", "other model", "run with a"}}
Emit == (captured = {} /\ keyed = {} /\ Len(hist) = Replayed /\ hist[Replayed] \in {"run", "run with a", "other model"} /\ Cardinality(Runs) >= 2)
            => PrintT("CASE " \o ToJson(hist))
ASSUME TLCSet(1, {})
Shown == \A c, k \in SUBSET Fields : (c \ k # {}) => <<c, k>> \in TLCGet(1)
=============================================================================
