-------------------------- MODULE RetentionTrace --------------------------
EXTENDS Retention, TraceKit
VARIABLES c, l
P == Trace[c].par
Ev == Evs(c)[l]
Bag(s) == {s[i] : i \in 1..Len(s)}
\* after the mill had all the time it needs: exactly the files the rule says, foreign files and the current file untouched
Settled == /\ l <= Len(Evs(c)) /\ Ev.e = "Settled"
           /\ ~Ev.err
           /\ Bag(Ev.after) = After(P) /\ Len(Ev.after) = Cardinality(After(P))
           /\ Ev.cur = P.cur
           /\ Ev.foreign = P.foreign
           /\ Ev.torn = 0
           /\ l' = l + 1 /\ c' = c
TraceInit == c \in 1..NCases /\ l = 1
TraceSpec == TraceInit /\ [][Settled]_<<c, l>>
Progress == Mark(c, l)
=============================================================================
