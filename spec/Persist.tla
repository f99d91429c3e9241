------------------------------ MODULE Persist ------------------------------
(***************************************************************************)
(* Saving a chain to a file and loading it back, with failures and crashes *)
(* in the middle of a save.                                                *)
(*                                                                         *)
(* The specification (what a user sees): store[p] is the version last      *)
(* saved under path p, or None.  A save either completes, is refused       *)
(* (file exists, overwriting not asked for) or fails; a failed save leaves *)
(* the old version or the complete new one, never anything else.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT None

SaveOk(store, p, v)  == [store EXCEPT ![p] = v]
RefuseDue(store, p, overwrite) == store[p] # None /\ ~overwrite
AfterFailed(store, p, v) == {store[p], v}
=============================================================================
