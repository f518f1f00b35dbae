-------------------------- MODULE RetentionOracle --------------------------
EXTENDS Retention, Json, IOUtils, TLC, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE i
Out(k) == ToJson([id |-> Cases[k].id, expect |-> SetToSeq(After(Cases[k].p))])
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Emit == i > Len(Cases) \/ Serialize(Out(i) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
