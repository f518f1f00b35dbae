----------------------------- MODULE TypesTrace -----------------------------
(* What is said about types is what Go says.                                 *)
EXTENDS TraceKit
VARIABLES c, l
Ev == Evs(c)[l]
Step == l <= Len(Evs(c)) /\ Ev.got = Ev.want /\ l' = l + 1 /\ c' = c
TraceInit == c \in 1..NCases /\ l = 1
TraceSpec == TraceInit /\ [][Step]_<<c, l>>
Progress == Mark(c, l)
=============================================================================
