------------------------------ MODULE GoValue ------------------------------
(* Variables of some type, taken apart into leaves; value 0 of a leaf is the *)
(* zero value.  A leaf may be a pointer to an embedded struct: its value is  *)
(* the number of that struct, 0 none.  A place is [via, lo, hi]: leaves lo   *)
(* to hi of the variable, or of what its leaf via points to.                 *)
EXTENDS Naturals, Sequences
VARIABLES vals,   \* per variable
          pts     \* per embedded struct
InPlace(a, i) == i >= a.lo /\ i <= a.hi
Put(q, a, ts) == [i \in DOMAIN q |-> IF InPlace(a, i) THEN ts[i - a.lo + 1] ELSE q[i]]
Target(v, a) == IF a.via = 0 THEN 0 ELSE vals[v][a.via]
Reachable(v, a) == a.via = 0 \/ Target(v, a) # 0
Get(v, a) == SubSeq(IF a.via = 0 THEN vals[v] ELSE pts[Target(v, a)], a.lo, a.hi)
FieldSet(v, a, ts) == /\ Reachable(v, a)
                      /\ IF a.via = 0 THEN vals' = [vals EXCEPT ![v] = Put(@, a, ts)] /\ UNCHANGED pts
                         ELSE pts' = [pts EXCEPT ![Target(v, a)] = Put(@, a, ts)] /\ UNCHANGED vals
Assign(v, w) == vals' = [vals EXCEPT ![v] = vals[w]] /\ UNCHANGED pts
New(v) == vals' = [vals EXCEPT ![v] = [i \in DOMAIN @ |-> 0]] /\ UNCHANGED pts
=============================================================================
