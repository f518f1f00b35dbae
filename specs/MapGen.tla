------------------------------- MODULE MapGen -------------------------------
(* All histories of a few operations on two map variables.                   *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS Depth
VARIABLES ops
Init == ops = <<[op |-> "Make", v |-> 0]>> \/ ops = <<[op |-> "New", v |-> 0]>>
Do(o) == ops' = Append(ops, o)
Next == Len(ops) <= Depth /\ \E v \in {0, 1} :
  \/ \E k \in {1, 2}, t \in {0, 1} : Do([op |-> "SetIndex", v |-> v, i |-> k, t |-> t])
  \/ Do([op |-> "Make", v |-> v, c |-> 3])
  \/ Do([op |-> "Set", v |-> v, w |-> 1 - v])
  \/ Do([op |-> "New", v |-> v])
  \/ Do([op |-> "Fill", v |-> v, n |-> 20])
  \/ Do([op |-> "Delete", v |-> v, i |-> 1])
Spec == Init /\ [][Next]_ops
Emit == Serialize(ToJson([ops |-> ops]) \o "\n", IOEnv.GEN, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
