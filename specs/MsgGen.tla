------------------------------- MODULE MsgGen -------------------------------
(* All templates over an alphabet of tokens up to a length.                   *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS Tokens, MaxLen
VARIABLES t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E x \in Tokens : t' = Append(t, x)
Spec == Init /\ [][Next]_t
Emit == Serialize(ToJson([t |-> t]) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
