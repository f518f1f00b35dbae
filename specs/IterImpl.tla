------------------------------ MODULE IterImpl ------------------------------
(* Iterating over a map: the fast iterator is always one entry ahead (there  *)
(* is a next one when it holds one), the safe one goes through the keys it   *)
(* took at the start.  Both give every entry once, and end.                  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys
VARIABLES ents, left, held, given, keys, at, given2
vars == <<ents, left, held, given, keys, at, given2>>
Init == /\ ents \in SUBSET Keys
        /\ \E k \in ents \cup {0} : (k = 0 <=> ents = {}) /\ held = k /\ left = ents \ {k}
        /\ given = <<>> /\ given2 = <<>> /\ at = 0
        /\ keys \in {q \in [1..Cardinality(ents) -> ents] : Cardinality({q[i] : i \in DOMAIN q}) = Cardinality(ents)}
NextFast == /\ held # 0 /\ given' = Append(given, held)
            /\ \E k \in left \cup {0} : (k = 0 <=> left = {}) /\ held' = k /\ left' = left \ {k}
            /\ UNCHANGED <<ents, keys, at, given2>>
NextSafe == at # Len(keys) /\ given2' = Append(given2, keys[at + 1]) /\ at' = at + 1 /\ UNCHANGED <<ents, left, held, given, keys>>
Next == NextFast \/ NextSafe
Spec == Init /\ [][Next]_vars /\ WF_vars(NextFast) /\ WF_vars(NextSafe)
Range(q) == {q[i] : i \in DOMAIN q}
Once(q) == Cardinality(Range(q)) = Len(q) /\ Range(q) \subseteq ents
OnceEach == Once(given) /\ Once(given2) /\ (held = 0 <=> Range(given) = ents) /\ (at = Len(keys) <=> Range(given2) = ents)
Ends == <>(Range(given) = ents /\ Range(given2) = ents)
=============================================================================
