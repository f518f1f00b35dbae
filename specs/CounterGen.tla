----------------------------- MODULE CounterGen -----------------------------
(* Every order, up to a length, in which goroutines count in two keys while an *)
(* export is under way, held inside the collector between two points.         *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS MaxOps, GenGs, GenKs
VARIABLES hist, ex
gvars == <<hist, ex>>
Op(r) == hist' = Append(hist, r)
GenInit == hist = <<>> /\ ex = 0
\* goroutines and keys are numbered by their first use
Used(f, n) == \E i \in DOMAIN hist : f \in DOMAIN hist[i] /\ hist[i][f] = n
Count(g, k) == /\ (\A h \in 1..(g - 1) : Used("g", h)) /\ (\A m \in 1..(k - 1) : Used("k", m))
               /\ Op([op |-> "count", g |-> g, k |-> k]) /\ UNCHANGED ex
Begin == ex = 0 /\ Op([op |-> "export"]) /\ ex' = 1
Release(p) == ex \in 1..2 /\ Op([op |-> "release", pan |-> p]) /\ ex' = (IF p THEN 0 ELSE ex + 1)
Finish == ex > 0 /\ Op([op |-> "finish"]) /\ ex' = 0
GenNext == Len(hist) < MaxOps /\ ((\E g \in GenGs, k \in GenKs : Count(g, k)) \/ Begin \/ (\E p \in BOOLEAN : Release(p)) \/ Finish)
GenSpec == GenInit /\ [][GenNext]_gvars
Emit == Len(hist) < MaxOps \/ Serialize(ToJson([ops |-> hist]) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
