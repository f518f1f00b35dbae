----------------------------- MODULE ClosingGen -----------------------------
(* All lists of outcomes up to a length, for every function, with every kind *)
(* of list of properties.                                                    *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS MaxLen
VARIABLES q, fn, props
Outcomes == {"ok", "err", "same", "typednil", "multi", "struct"}
Init == q = <<>> /\ fn \in {"CloseAll", "Close", "Merge"} /\ props \in {"none", "two", "room", "full", "err", "odd"}
Next == Len(q) < MaxLen /\ (fn = "Close" => Len(q) = 0) /\ \E o \in Outcomes : q' = Append(q, o) /\ UNCHANGED <<fn, props>>
Spec == Init /\ [][Next]_<<q, fn, props>>
Emit == (fn = "Close" => Len(q) = 1) /\ (fn = "Merge" => props = "none") =>
        Serialize(ToJson([q |-> q, fn |-> fn, props |-> props]) \o "\n", IOEnv.GEN, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
