------------------------------ MODULE SliceGen ------------------------------
(* All histories of a few operations on two slice variables, one of which    *)
(* starts as a window into an array.                                         *)
EXTENDS Naturals, Integers, Sequences, Json, IOUtils, TLC
CONSTANTS Depth
VARIABLES ops, len
W0 == [op |-> "Window", v |-> 0, i |-> 3, n |-> 2, c |-> 2]
Init == \/ ops = <<W0>> /\ len = <<2, 0>>
        \/ ops = <<W0, [op |-> "Set", v |-> 1, w |-> 0]>> /\ len = <<2, 2>>
        \/ ops = <<[op |-> "Make", v |-> 0, n |-> 1, c |-> 1], [op |-> "Make", v |-> 1, n |-> 0, c |-> 3]>> /\ len = <<1, 0>>
Do(o, v, n) == ops' = Append(ops, o) /\ len' = [len EXCEPT ![v + 1] = n]
Next == Len(ops) < Depth + (IF ops[1].op = "Window" /\ (Len(ops) < 2 \/ ops[2] # [op |-> "Set", v |-> 1, w |-> 0]) THEN 1 ELSE 2) /\
  \E v \in {0, 1} : LET w == 1 - v
                        n == len[v + 1]
                        m == len[w + 1] IN
  \/ Do([op |-> "Append", v |-> v, t |-> 1 + Len(ops)], v, n + 1)
  \/ m > 0 /\ Do([op |-> "AppendFrom", v |-> v, w |-> w, j |-> m - 1], v, n + 1)
  \/ n > 0 /\ Do([op |-> "AppendFrom", v |-> v, w |-> v, j |-> 0], v, n + 1)
  \/ \E k \in {0, 1, n + 1, 5} : Do([op |-> "Grow", v |-> v, n |-> k], v, k)
  \/ n > 0 /\ \E i \in {0, n - 1} : Do([op |-> "SetIndex", v |-> v, i |-> i, t |-> 1 + Len(ops)], v, n)
  \/ n > 0 /\ m > 0 /\ Do([op |-> "SetFrom", v |-> v, i |-> 0, w |-> w, j |-> m - 1], v, n)
  \/ n > 1 /\ Do([op |-> "SetFrom", v |-> v, i |-> 0, w |-> v, j |-> 1], v, n)
  \/ Do([op |-> "Set", v |-> v, w |-> w], v, m)
  \/ m > 0 /\ Do([op |-> "Sub", v |-> v, w |-> w, i |-> 1, j |-> m], v, m - 1)
  \/ m > 0 /\ Do([op |-> "Sub", v |-> v, w |-> w, i |-> 0, j |-> m - 1], v, m - 1)
  \/ Do([op |-> "SetNil", v |-> v], v, 0)
  \/ Do([op |-> "Make", v |-> v, n |-> 1, c |-> 2], v, 1)
  \/ Do([op |-> "Make", v |-> v, n |-> 0, c |-> 0], v, 0)
  \/ Do([op |-> "New", v |-> v], v, 0)
Spec == Init /\ [][Next]_<<ops, len>>
Emit == Serialize(ToJson([ops |-> ops, len |-> len]) \o "\n", IOEnv.GEN, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
