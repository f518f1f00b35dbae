------------------------------ MODULE LogGen ------------------------------
(* All histories of calls of one event: properties of other types, names and *)
(* numbers, values and writers that make trouble.                            *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS MaxLen
VARIABLES h
Fine == {"same", "types", "names", "order", "fewer", "more", "none", "call", "failed", "logs", "unnamed"}
Trouble == {"nokey", "nilkey", "odd", "boom", "errpanic", "werr", "wpanic", "wshort", "wlogs"}
Init == h = <<>>
Next == Len(h) < MaxLen /\ \E k \in Fine \cup Trouble : h' = Append(h, k)
Spec == Init /\ [][Next]_h
\* the histories that have something to be wrong about
Emit == Len(h) = MaxLen => Serialize(ToJson([h |-> h]) \o "\n", IOEnv.GEN, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
