------------------------------ MODULE MapTrace ------------------------------
(* Histories of operations on maps, recorded with all maps after each.       *)
EXTENDS GoMap, TraceKit
VARIABLES c, l
tvars == <<maps, mv, c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ Ev.how = "ok" /\ l' = l + 1 /\ c' = c
Par == Trace[c].par
V == Ev.v
W == Ev.w
Keep == UNCHANGED <<maps, mv>>
IsMap(m, ps) == /\ Len(ps) = Cardinality(DOMAIN m)
                /\ \A i \in DOMAIN ps : ps[i][1] \in DOMAIN m /\ m[ps[i][1]] = ps[i][2]
                /\ \A i \in 1..(Len(ps) - 1) : ps[i][1] < ps[i + 1][1]
Found == /\ Ev.mem.intact /\ Ev.mem.vars = mv' /\ Len(Ev.mem.maps) = Len(maps')
         /\ \A i \in 1..Len(maps') : IsMap(maps'[i], Ev.mem.maps[i])
Op ==
  \/ Is("New") /\ New(V)
  \/ Is("Make") /\ Make(V)
  \/ Is("Set") /\ Assign(V, W)
  \/ Is("SetIndex") /\ SetIndex(V, Ev.k, Ev.t)
  \/ Is("Fill") /\ Fill(V, Ev.n, [x \in 1..Ev.n |-> x % Par.nt])
  \/ Has /\ Ev.e \in {"SetIndex", "Fill"} /\ Ev.how = "panic" /\ mv[V] = 0 /\ l' = l + 1 /\ c' = c /\ Keep
  \/ Is("Fill") /\ Ev.n = 0 /\ Keep
  \/ Is("Delete") /\ Delete(V, Ev.k)
  \/ Is("GetIndex") /\ Ev.r = (IF Has0(V, Ev.k) THEN maps[mv[V]][Ev.k] ELSE -1) /\ Keep
  \/ Is("Iterate") /\ Ev.r = 0 /\ IsIteration(V, Ev.pairs) /\ Keep
  \/ Is("IsNil") /\ Ev.r = (mv[V] = 0) /\ Keep
  \/ Is("Indirect") /\ Ev.r = mv[V] /\ Keep
  \/ Has /\ Ev.e = "Bad" /\ Ev.how = "panic" /\ l' = l + 1 /\ c' = c /\ Keep
Begin == Has /\ Ev.e = "Init" /\ l' = l + 1 /\ c' = c /\ Keep
Step == (Begin \/ Op) /\ Found
TraceInit == c \in 1..NCases /\ l = 1 /\ maps = <<>> /\ mv = <<0, 0>>
TraceSpec == TraceInit /\ [][Step]_tvars
Progress == Mark(c, l)
=============================================================================
