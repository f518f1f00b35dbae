------------------------------ MODULE JsonGen ------------------------------
(* All nestings of the type constructors around each kind of leaf, up to a   *)
(* depth.  Built from the inside: shape is the sequence of constructors.     *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS Depth
VARIABLES leaf, wraps
Leaves == {"bool", "int", "float", "str", "bytes", "error", "iface"}
Wraps == {"ptr", "nilptr", "slice0", "slice1", "slice2", "nilslice", "array0", "array1", "array2", "struct1", "struct2", "structskip",
          "map0", "map1", "map2", "nilmap", "boxed", "mapkey"}
Init == leaf \in Leaves /\ wraps = <<>>
Next == /\ Len(wraps) < Depth /\ \E w \in Wraps : wraps' = Append(wraps, w) /\ leaf' = leaf
Spec == Init /\ [][Next]_<<leaf, wraps>>
Emit == Serialize(ToJson([leaf |-> leaf, wraps |-> wraps]) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
