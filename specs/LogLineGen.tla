---------------------------- MODULE LogLineGen ----------------------------
(* All combinations of what a line is made of.                              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS MaxArgs, MaxCtx, Levels
VARIABLES g
Kinds == {"any", "timer", "timerish", "oddkey", "again"}
Init == g \in [f : {"json", "compact", "hrf", "hrftime", "printf"}, lv : Levels, name : {"template", "invalid", "event", "callee", "empty"},
               err : {"none", "text", "empty"}, args : {<<>>}, ctx : {-1, 0}, pre : {0, 40}]
\* levels, errors and the context matter one at a time
Next == \/ Len(g.args) < MaxArgs /\ \E k \in Kinds : g' = [g EXCEPT !.args = Append(@, k)]
        \/ g.ctx >= 0 /\ g.ctx < MaxCtx /\ g' = [g EXCEPT !.ctx = @ + 1]
Spec == Init /\ [][Next]_g
Emit == Serialize(ToJson(g) \o "\n", IOEnv.GEN, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
