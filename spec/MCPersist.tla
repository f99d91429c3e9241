----------------------------- MODULE MCPersist -----------------------------
(* The design used by the code - write a temporary file, then rename it -  *)
(* refines Persist for every crash point; also the generator of histories. *)
EXTENDS Persist, TLC, Json
CONSTANTS Depth, Paths

Faults == {"none", "fs0", "fs1", "fs2", "bytes0", "bytesHalf", "pickle"}
V(n) == "v" \o ToString(n)
VARIABLES disk,   \* path -> [file, tmp], each None, a version, or "torn"
          store,  \* path -> set of versions the path may hold (abstract)
          pc,     \* "idle" or [p, v, at]
          hist, nextv
vars == <<disk, store, pc, hist, nextv>>
Init == /\ disk = [p \in Paths |-> [file |-> None, tmp |-> None]]
        /\ store = [p \in Paths |-> {None}] /\ pc = [at |-> "idle"] /\ hist = <<>> /\ nextv = 1

Begin(p, ow, f) ==
    /\ pc.at = "idle" /\ Len(hist) < Depth
    /\ hist' = Append(hist, [op |-> "save", path |-> p, ver |-> nextv, overwrite |-> ow, fault |-> f])
    /\ nextv' = nextv + 1
    /\ IF disk[p].file # None /\ ~ow
       THEN UNCHANGED <<disk, store, pc>>                 \* refused
       ELSE /\ pc' = [at |-> "open", p |-> p, v |-> V(nextv), f |-> f]
            /\ store' = [store EXCEPT ![p] = @ \cup {V(nextv)}]
            /\ UNCHANGED disk
OpenTmp  == pc.at = "open"  /\ disk' = [disk EXCEPT ![pc.p].tmp = "torn"] /\ pc' = [pc EXCEPT !.at = "write"] /\ UNCHANGED <<store, hist, nextv>>
WriteTmp == pc.at = "write" /\ disk' = [disk EXCEPT ![pc.p].tmp = pc.v] /\ pc' = [pc EXCEPT !.at = "rename"] /\ UNCHANGED <<store, hist, nextv>>
Rename   == pc.at = "rename" /\ disk' = [disk EXCEPT ![pc.p] = [file |-> @.tmp, tmp |-> None]]
            /\ store' = [store EXCEPT ![pc.p] = {pc.v}] /\ pc' = [at |-> "idle"] /\ UNCHANGED <<hist, nextv>>
\* a fault or a crash at any point; the temporary file may stay behind
Fail     == /\ pc.at \in {"open", "write", "rename"} /\ pc.f # "none"
            /\ pc' = [at |-> "idle"] /\ UNCHANGED <<disk, store, hist, nextv>>
Load(p)  == /\ pc.at = "idle" /\ Len(hist) < Depth /\ hist # <<>> /\ hist[Len(hist)].op # "load"
            /\ hist' = Append(hist, [op |-> "load", path |-> p])
            /\ store' = [store EXCEPT ![p] = {disk[p].file}]
            /\ UNCHANGED <<disk, pc, nextv>>
Next == \/ \E p \in Paths, ow \in BOOLEAN, f \in Faults : Begin(p, ow, f)
        \/ OpenTmp \/ WriteTmp \/ Rename \/ Fail
        \/ \E p \in Paths : Load(p)
NeverTorn == \A p \in Paths : disk[p].file # "torn"
Refines   == \A p \in Paths : disk[p].file \in store[p]
Emit == (pc.at = "idle" /\ Len(hist) = Depth) => PrintT("CASE " \o ToJson([ops |-> hist]))
=============================================================================
