----------------------------- MODULE SliceTrace -----------------------------
(* Histories of operations on slices, recorded with the memory after each.   *)
EXTENDS GoSlice, TraceKit
VARIABLES c, l
tvars == <<arrs, sl, c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ Ev.how = "ok" /\ l' = l + 1 /\ c' = c
Par == Trace[c].par
V == Ev.v
W == Ev.w
Got == Ev.mem.sl[V].cap
Keep == UNCHANGED <<arrs, sl>>
Shown(s) == IF Par.zs THEN [s EXCEPT !.arr = 0, !.off = 0] ELSE s
\* what plain Go finds afterwards
Found == /\ Ev.mem.intact
         /\ \A v \in {1, 2} : Ev.mem.sl[v] = Shown(sl'[v])
         /\ Par.zs \/ Ev.mem.arrs = arrs'
Op ==
  \/ Is("New") /\ New(V)
  \/ Is("SetNil") /\ SetNil(V)
  \/ Is("Make") /\ Make(V, Ev.n, Ev.c)
  \/ Is("Window") /\ sl' = [sl EXCEPT ![V] = [nil |-> FALSE, arr |-> 1, off |-> Ev.i, len |-> Ev.n, cap |-> Ev.n + Ev.c]] /\ UNCHANGED arrs
  \/ Is("Sub") /\ Sub(V, W, Ev.i, Ev.j, sl[W].cap)
  \/ Is("Set") /\ Assign(V, W)
  \/ Is("SetIndex") /\ SetIndex(V, Ev.i, Ev.t)
  \/ Is("SetFrom") /\ SetIndex(V, Ev.i, At(sl[W], Ev.j))
  \/ Is("Append") /\ AppendAll(V, <<Ev.t>>, Got)
  \/ Is("AppendFrom") /\ AppendAll(V, <<At(sl[W], Ev.j)>>, Got)
  \/ Is("AppendMany") /\ AppendAll(V, [i \in 1..Ev.n |-> (i - 1) % Par.nt], Got)
  \/ Is("Grow") /\ Grow(V, Ev.n, Got)
  \/ Is("GetIndex") /\ Ev.r = At(sl[V], Ev.i) /\ Keep
  \/ Is("IsNil") /\ Ev.r = sl[V].nil /\ Keep
  \/ Is("Len") /\ Ev.r = sl[V].len /\ Keep
  \/ Is("Cap") /\ Ev.r = sl[V].cap /\ Keep
  \/ Is("Indirect") /\ Ev.r = Shown(sl[V]) /\ Keep
  \/ Has /\ Ev.e = "Bad" /\ Ev.how = "panic" /\ l' = l + 1 /\ c' = c /\ Keep
Begin == Has /\ Ev.e = "Init" /\ l' = l + 1 /\ c' = c /\ Keep
Step == (Begin \/ Op) /\ Found
TraceInit == /\ c \in 1..NCases /\ l = 1
             /\ arrs = <<[i \in 1..12 |-> (i - 1) % Trace[c].par.nt]>>
             /\ sl = [v \in {1, 2} |-> NilSlice]
TraceSpec == TraceInit /\ [][Step]_tvars
Progress == Mark(c, l)
=============================================================================
