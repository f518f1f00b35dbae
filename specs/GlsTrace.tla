------------------------------ MODULE GlsTrace ------------------------------
(* Recorded use of goroutine local storage by any number of goroutines.  Only *)
(* the order of events of one goroutine, and of Wrap before Begin, matters.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TraceKit
GS == 1..40
KS == 1..10
WS == 1..40
VARIABLES c, l, st, snap, run, stk  \* stk[g]: what g had before the calls it is in
tvars == <<c, l, st, snap, run, stk>>
S == INSTANCE Gls WITH G <- GS, K <- KS, V <- {}, W <- WS, ghost <- st
Ev == Evs(c)[l]
Is(e) == l <= Len(Evs(c)) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Same == UNCHANGED <<st, snap, run>>

Begin == Is("Begin") /\ (IF Ev.w = 0 THEN S!Plain(Ev.g) ELSE S!Start(Ev.g, Ev.w)) /\ Ev.id = Ev.rid
Wrap == Is("Wrap") /\ S!Wrap(Ev.g, Ev.w, Ev.empty)
\* Set without storage panics and changes nothing
Set == Is("Set") /\ IF st[Ev.g] = S!OFF THEN Ev.p /\ Same ELSE ~Ev.p /\ S!Set(Ev.g, Ev.k, Ev.v)
Get == Is("Get") /\ run[Ev.g] \in {"run", "done"} /\ Ev.v = S!GetR(Ev.g, Ev.k) /\ ~Ev.other /\ Same
Mutate == Is("Mutate") /\ IF S!GetR(Ev.g, Ev.k)[1] # 2 THEN ~Ev.done /\ Same ELSE Ev.done /\ S!Mutate(Ev.g, Ev.k, Ev.n)
Enabled == Is("Enabled") /\ Ev.r = (st[Ev.g] # S!OFF) /\ Same
Reset == Is("Reset") /\ S!Reset(Ev.g, [S!Empty EXCEPT ![Ev.k] = Ev.v])
Delete == Is("Delete") /\ S!Delete(Ev.g)
\* a wrapped function is called in a goroutine that may have storage: it starts with its own all the same.  When it has ended
\* that is gone; whether the caller has what it had before is not said.
CallF == Is("Call") /\ snap[Ev.w] # S!UNUSED /\ S!Reset(Ev.g, snap[Ev.w]) /\ stk' = [stk EXCEPT ![Ev.g] = Append(@, st[Ev.g])]
Return == /\ Is("Return") /\ stk[Ev.g] # <<>> /\ Ev.how = Ev.want /\ stk' = [stk EXCEPT ![Ev.g] = SubSeq(@, 1, Len(@) - 1)]
          /\ (S!Delete(Ev.g) \/ S!Reset(Ev.g, stk[Ev.g][Len(stk[Ev.g])]))
\* the wrapped function ended (the goroutine goes on behind it)
End == Is("End") /\ S!End(Ev.g) /\ Ev.how = Ev.want
\* seen by another goroutine, after the end
Gone == Is("Gone") /\ run[Ev.g] = "done" /\ ~Ev.r /\ Same
Unique == Is("Unique") /\ Ev.n = Ev.distinct /\ Same
TraceInit == /\ c \in 1..NCases /\ l = 1 /\ st = [g \in GS |-> S!OFF] /\ snap = [w \in WS |-> S!UNUSED]
             /\ stk = [g \in GS |-> <<>>]
             /\ run = [g \in GS |-> "new"]
TraceSpec == TraceInit /\ [][CallF \/ Return \/ ((Begin \/ Wrap \/ Set \/ Get \/ Mutate \/ Enabled \/ Reset \/ Delete \/ End \/ Gone \/ Unique) /\ UNCHANGED stk)]_tvars
Progress == Mark(c, l)
=============================================================================
