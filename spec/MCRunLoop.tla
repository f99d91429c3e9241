----------------------------- MODULE MCRunLoop -----------------------------
(* All two-valued samplers with one bit of memory; prints every behaviour  *)
(* for replay in the real loop.                                            *)
EXTENDS RunLoop, TLC, Json, FiniteSets

CONSTANT MaxIter

VARIABLES cfg, s

Val == {0, 1}
Configs == [init : Val, table : {<< <<a, b>>, <<c, d>> >> : a \in Val, b \in Val, c \in Val, d \in Val},
            stop : {<<a, b>> : a \in BOOLEAN, b \in BOOLEAN}, maxIter : 0..MaxIter]

Init == cfg \in Configs /\ s = Fresh
Next == /\ UNCHANGED cfg
        /\ \/ StartupEnabled(s) /\ s' = Startup(cfg, s)
           \/ UpdateEnabled(cfg, s) /\ s' = Update(cfg, s)
           \/ ReturnEnabled(cfg, s) /\ s' = Return(cfg, s)
Spec == Init /\ [][Next]_<<cfg, s>> /\ WF_<<cfg, s>>(Next)

Safety == /\ NeverTooLong(cfg, s)
          /\ NothingAfterStop(cfg, s)
          /\ StartsAtInit(cfg, s)
          /\ StepsFollowTable(cfg, s)
          /\ DoneMeansTerminated(cfg, s)
Terminates == <>(s.phase = "done")
Emit == s.phase = "done" => PrintT("CASE " \o ToJson([cfg |-> cfg, len |-> Len(s.chain)]))
=============================================================================
