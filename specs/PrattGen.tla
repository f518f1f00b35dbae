------------------------------ MODULE PrattGen ------------------------------
(* All sequences of kinds of tokens of a length; only the last one is where  *)
(* it can not be, for what follows such a token is never looked at.          *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS MaxLen, Kinds
VARIABLES q, want, over   \* the tokens; whether an operand is wanted; the last one is out of place
vars == <<q, want, over>>
Operand == {"n", "(", "p", "P"} \cap Kinds   \* p, P: prefix operators
Operator == Kinds \ Operand                   \* a, b: left, r: right associative; !: postfix; ?, :: ternary
Init == q = <<>> /\ want = TRUE /\ over = FALSE
Next == /\ Len(q) < MaxLen /\ ~over
        /\ \E k \in Kinds : /\ q' = Append(q, k)
                            /\ over' = (k \in (IF want THEN Operator ELSE Operand))
                            /\ want' = (k \notin {"n", ")", "!"})
Spec == Init /\ [][Next]_vars
Emit == Serialize(ToJson([q |-> q]) \o "\n", IOEnv.GEN, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
