----------------------------- MODULE SourceGen -----------------------------
(* All sequences of kinds of operations up to a length; the check chooses    *)
(* the input, the arguments and several ways for the input to arrive.        *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS MaxOps
VARIABLES ops
Kinds == {"Peek", "PeekN", "PeekRune", "ConsumeN", "Consume", "Consume1", "AnyExcept", "Space", "UnicodeSpace", "UnicodeRange", "UnicodeRanges",
          "uint64", "int64", "int32", "SetBuffer", "ReportError"}
Init == ops = <<>>
Next == Len(ops) < MaxOps /\ \E k \in Kinds : ops' = Append(ops, k)
Spec == Init /\ [][Next]_ops
Emit == Len(ops) = MaxOps => Serialize(ToJson([ops |-> ops]) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
