------------------------------- MODULE GoMap -------------------------------
(* Maps as Go has them: variables that refer to maps, 0 to none.             *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES maps,   \* the maps: each a function from some keys to values
          mv      \* per variable: which map
None == <<>>
Has0(v, k) == mv[v] # 0 /\ k \in DOMAIN maps[mv[v]]
Size(v) == IF mv[v] = 0 THEN 0 ELSE Cardinality(DOMAIN maps[mv[v]])
With(m, k, t) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN t ELSE m[x]]
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

New(v) == mv' = [mv EXCEPT ![v] = 0] /\ UNCHANGED maps
Make(v) == maps' = Append(maps, [x \in {} |-> 0]) /\ mv' = [mv EXCEPT ![v] = Len(maps) + 1]
Assign(v, w) == mv' = [mv EXCEPT ![v] = mv[w]] /\ UNCHANGED maps
\* not of a nil map: it panics
SetIndex(v, k, t) == mv[v] # 0 /\ maps' = [maps EXCEPT ![mv[v]] = With(@, k, t)] /\ UNCHANGED mv
Fill(v, n, f) == mv[v] # 0 /\ maps' = [maps EXCEPT ![mv[v]] = [x \in DOMAIN @ \cup 1..n |-> IF x <= n THEN f[x] ELSE @[x]]] /\ UNCHANGED mv
Delete(v, k) == UNCHANGED mv /\ (IF Has0(v, k) THEN maps' = [maps EXCEPT ![mv[v]] = Without(@, k)] ELSE UNCHANGED maps)
\* pairs in some order, each entry once
IsIteration(v, ps) == /\ Len(ps) = Size(v)
                      /\ \A i \in DOMAIN ps : Has0(v, ps[i][1]) /\ maps[mv[v]][ps[i][1]] = ps[i][2]
                      /\ Cardinality({ps[i][1] : i \in DOMAIN ps}) = Len(ps)
=============================================================================
