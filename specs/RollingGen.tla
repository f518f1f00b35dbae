---------------------------- MODULE RollingGen ----------------------------
(* All sequences of operations of a given length whose effect is not trivial. *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS MaxOps, Lens
VARIABLES hist, exists
Op(r) == hist' = Append(hist, r)
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Init == hist = <<>> /\ exists \in BOOLEAN
Next == /\ Len(hist) < MaxOps
        /\ \/ \E n \in Lens : Op([op |-> "write", n |-> n]) /\ exists' = TRUE
           \/ Op([op |-> "rotate"]) /\ exists' = TRUE
           \/ Last \notin {"close", "restart", "died"} /\ Op([op |-> "close"]) /\ UNCHANGED exists
           \/ Last \notin {"close", "restart", "died"} /\ Op([op |-> "restart"]) /\ UNCHANGED exists
           \/ exists /\ \E h \in {"renamed", "created"} : Op([op |-> "died", how |-> h]) /\ exists' = (h = "created")
           \/ Last # "tick" /\ Op([op |-> "tick"]) /\ UNCHANGED exists
Spec == Init /\ [][Next]_<<hist, exists>>
Complete == Len(hist) = MaxOps /\ Last \in {"write", "rotate"}
Emit == ~Complete \/ Serialize(ToJson(hist) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
