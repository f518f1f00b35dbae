---------------------------- MODULE DispatchGen ----------------------------
(* All histories SetMin, call, SetMin, call of one event; each with the       *)
(* outputs the design demands.                                                *)
EXTENDS Dispatch, Json, IOUtils, TLC
CONSTANTS Mins, Lvs, Fns
VARIABLES fn, lv, agg, failed, ctx, hist
gvars == <<dvars, fn, lv, agg, failed, ctx, hist>>
Init == /\ fn \in Fns /\ agg \in BOOLEAN /\ ctx \in {0, 1} /\ coll \in BOOLEAN
        /\ (fn = "LogAccess" => ctx = 1) /\ (fn = "Log" => ctx = 0)
        /\ failed \in (IF IsCall(fn) THEN BOOLEAN ELSE {FALSE})
        /\ lv \in (IF fn = "Log" THEN Lvs ELSE {0})
        /\ min = 10 /\ hist = <<>> /\ props = [x \in 1..3 |-> <<>>] /\ sup = [x \in 1..3 |-> 0]
Next == /\ Len(hist) < 2 /\ UNCHANGED <<fn, lv, agg, failed, ctx>>
        /\ \E m \in Mins : SetMin(m) /\ hist' = Append(hist, m)
Spec == Init /\ [][Next]_gvars
Emit == Len(hist) = 2 =>
        Serialize(ToJson([fn |-> fn, lv |-> lv, agg |-> agg, failed |-> failed, ctx |-> ctx, coll |-> coll, hist |-> hist]) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
