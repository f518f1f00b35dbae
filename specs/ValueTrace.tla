----------------------------- MODULE ValueTrace -----------------------------
EXTENDS GoValue, TraceKit
VARIABLES c, l
tvars == <<vals, pts, c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ Ev.how = "ok" /\ l' = l + 1 /\ c' = c
Par == Trace[c].par
V == Ev.v
W == Ev.w
Keep == UNCHANGED <<vals, pts>>
Found == Ev.mem.intact /\ Ev.mem.vals = vals' /\ Ev.mem.pts = pts'
IsZero(v) == \A i \in DOMAIN vals[v] : vals[v][i] = 0
Op ==
  \/ Is("Put") /\ vals' = [vals EXCEPT ![V] = Ev.ts] /\ UNCHANGED pts
  \/ Is("New") /\ New(V)
  \/ Is("Set") /\ Assign(V, W)
  \/ Is("FSet") /\ FieldSet(V, Ev.acc, Ev.ts)
  \/ Is("FSetFrom") /\ Reachable(W, Ev.acc) /\ Ev.ts = Get(W, Ev.acc) /\ FieldSet(V, Ev.acc, Ev.ts)
  \/ Is("FGet") /\ Reachable(V, Ev.acc) /\ Ev.ts = Get(V, Ev.acc) /\ Keep
  \/ Has /\ Ev.e \in {"FSet", "FGet", "FSetFrom"} /\ Ev.how = "panic" /\ ~(Reachable(V, Ev.acc) /\ (Ev.e = "FSetFrom" => Reachable(W, Ev.acc))) /\ l' = l + 1 /\ c' = c /\ Keep
  \/ Is("Indirect") /\ Ev.ts = vals[V] /\ Keep
  \/ Is("PackEFace") /\ Keep
  \/ Is("IsNil") /\ Ev.r = (Par.nullable /\ IsZero(V)) /\ Keep
  \/ Is("IsNilNil") /\ Ev.r = TRUE /\ Keep
  \/ Has /\ Ev.e = "Bad" /\ Ev.how = "panic" /\ l' = l + 1 /\ c' = c /\ Keep
Begin == Has /\ Ev.e = "Init" /\ l' = l + 1 /\ c' = c /\ Keep
Step == (Begin \/ Op) /\ Found
TraceInit == /\ c \in 1..NCases /\ l = 1
             /\ vals = [v \in {1, 2} |-> [i \in 1..Trace[c].par.leaves |-> 0]]
             /\ pts = <<<<1, 2>>, <<2, 0>>>>
TraceSpec == TraceInit /\ [][Step]_tvars
Progress == Mark(c, l)
=============================================================================
